"""The symbols of the printing cases; names may not clash with functions of the
target languages (Fortran names are case-insensitive)."""
SYMS = [('a', ()), ('b', ()), ('x_1', ()), ('q', ()), ('Y', ()), ('u', (3,)), ('v', (3,)), ('w', (2,)), ('r', (1, 3)), ('s1', (1, 2)),
        ('AA', (2, 2)), ('BB', (3, 3)), ('CC', (2, 3)), ('DD', (3, 2)), ('_k', ()), ('o1', (1, 1)), ('e1', (1,))]
DERS = ['a', 'u', 'AA', 'x_1']
