// TLC module override for Series.tla: doubles with running error bounds,
// lifted to truncated power series.  See Series.tla for the meaning.
import tlc2.value.impl.*;

public class Series {
  static final double U = Math.ulp(1.0) / 2;

  static final class D {
    final double v, e;
    D(double v, double e) {
      if (Double.isInfinite(v) || Double.isNaN(v) || Double.isNaN(e) || Double.isInfinite(e)) { this.v = Double.NaN; this.e = Double.NaN; }
      else { this.v = v; this.e = e; }
    }
    boolean nan() { return Double.isNaN(v); }
  }
  static final D NAN = new D(Double.NaN, Double.NaN);
  static final D ZERO = new D(0, 0), ONE = new D(1, 0);

  static D add(D a, D b) {
    double s = a.v + b.v;
    double bb = s - a.v;
    double r = (a.v - (s - bb)) + (b.v - bb);
    return new D(s, a.e + b.e + Math.abs(r));
  }
  static D neg(D a) { return new D(-a.v, a.e); }
  static D sub(D a, D b) { return add(a, neg(b)); }
  static D mul(D a, D b) {
    double p = a.v * b.v;
    double r = Math.fma(a.v, b.v, -p);
    return new D(p, Math.abs(a.v) * b.e + Math.abs(b.v) * a.e + a.e * b.e + Math.abs(r));
  }
  static D div(D a, D b) {
    if (a.nan() || b.nan()) return NAN;
    double den = Math.abs(b.v) - b.e;
    if (!(den > 0)) return NAN;
    double q = a.v / b.v;
    double r = Math.abs(Math.fma(-q, b.v, a.v)) / den;
    return new D(q, (a.e + Math.abs(q) * b.e) / den + r);
  }
  static D fn(double v, double df, D a) { return new D(v, Math.abs(df) * a.e + Math.abs(v) * 4 * U); }
  static D scale(D a, double k) { return mul(a, new D(k, 0)); }
  static D sqrt(D a) {
    if (a.nan() || a.v < 0 && a.v + a.e < 0) return NAN;
    if (a.v == 0 && a.e == 0) return ZERO;
    if (a.v - a.e <= 0) return NAN;
    double s = Math.sqrt(a.v);
    return new D(s, a.e / s + Math.abs(s) * 2 * U);
  }

  // ---- encoding
  static D[] dec(Value x) {
    TupleValue t = (TupleValue) x.toTuple();
    int n = t.elems.length / 4;
    D[] r = new D[n];
    for (int i = 0; i < n; i++) r[i] = new D(dbl(t.elems[4*i], t.elems[4*i+1]), dbl(t.elems[4*i+2], t.elems[4*i+3]));
    return r;
  }
  static double dbl(Value h, Value l) {
    return Double.longBitsToDouble(((long) ((IntValue) h).val << 32) | (((IntValue) l).val & 0xffffffffL));
  }
  static Value enc(D[] a) {
    Value[] e = new Value[4 * a.length];
    for (int i = 0; i < a.length; i++) {
      long v = Double.doubleToLongBits(a[i].v), x = Double.doubleToLongBits(a[i].e);
      e[4*i] = IntValue.gen((int) (v >> 32)); e[4*i+1] = IntValue.gen((int) v);
      e[4*i+2] = IntValue.gen((int) (x >> 32)); e[4*i+3] = IntValue.gen((int) x);
    }
    return new TupleValue(e);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }

  // ---- series
  static D[] cst(D c, int k) { D[] r = new D[k+1]; r[0] = c; for (int j = 1; j <= k; j++) r[j] = c.nan() ? NAN : ZERO; return r; }
  static int len(D[] a, D[] b) { return Math.min(a.length, b.length); }
  static D[] addS(D[] a, D[] b) { int n = len(a,b); D[] r = new D[n]; for (int k=0;k<n;k++) r[k]=add(a[k],b[k]); return r; }
  static D[] negS(D[] a) { D[] r = new D[a.length]; for (int k=0;k<r.length;k++) r[k]=neg(a[k]); return r; }
  static D[] mulS(D[] a, D[] b) {
    int n = len(a,b); D[] r = new D[n];
    for (int k=0;k<n;k++) { D s = ZERO; for (int j=0;j<=k;j++) s = add(s, mul(a[j], b[k-j])); r[k]=s; }
    return r;
  }
  static D[] divS(D[] a, D[] b) {
    int n = len(a,b); D[] r = new D[n];
    for (int k=0;k<n;k++) { D s = a[k]; for (int j=0;j<k;j++) s = sub(s, mul(r[j], b[k-j])); r[k]=div(s, b[0]); }
    return r;
  }
  static D[][] sincos(D[] a) {
    int n = a.length; D[] s = new D[n], c = new D[n];
    double sv = Math.sin(a[0].v), cv = Math.cos(a[0].v);
    s[0] = a[0].v==0&&a[0].e==0 ? ZERO : new D(sv, a[0].e + 2*U); c[0] = a[0].v==0&&a[0].e==0 ? ONE : new D(cv, a[0].e + 2*U);
    if (a[0].nan()) { s[0]=NAN; c[0]=NAN; }
    for (int k=1;k<n;k++) {
      D x = ZERO, y = ZERO;
      for (int j=1;j<=k;j++) { D w = scale(a[j], j); x = add(x, mul(w, c[k-j])); y = add(y, mul(w, s[k-j])); }
      s[k] = div(x, new D(k,0)); c[k] = neg(div(y, new D(k,0)));
    }
    return new D[][]{s,c};
  }
  // y with y0 given and y' = w (w has n-1 coefficients)
  static D[] integrate(D y0, D[] w, int n) {
    D[] r = new D[n]; r[0]=y0;
    for (int k=1;k<n;k++) r[k] = div(w[k-1], new D(k,0));
    return r;
  }
  static D[] diff(D[] a) { D[] r = new D[Math.max(a.length-1,0)]; for (int k=0;k<r.length;k++) r[k]=scale(a[k+1],k+1); return r; }
  static D[] cut(D[] a, int n) { D[] r = new D[Math.min(n,a.length)]; System.arraycopy(a,0,r,0,r.length); return r; }
  static D[] sqrtS(D[] a) {
    int n=a.length; D[] r=new D[n]; r[0]=sqrt(a[0]);
    if (a[0].v==0 && n>1) { for (int k=1;k<n;k++) r[k]=NAN; return r; }
    for (int k=1;k<n;k++) { D s=a[k]; for (int j=1;j<k;j++) s=sub(s,mul(r[j],r[k-j])); r[k]=div(s, scale(r[0],2)); }
    return r;
  }
  static boolean isConst(D[] b) { for (int k=1;k<b.length;k++) if (!(b[k].v==0&&b[k].e==0)) return false; return true; }
  static D[] powInt(D[] a, int m) {
    D[] r = cst(ONE, a.length-1); D[] base = a;
    int p = Math.abs(m);
    while (p>0) { if ((p&1)==1) r = mulS(r, base); base = (p>1) ? mulS(base, base) : base; p >>= 1; }
    return m<0 ? divS(cst(ONE,a.length-1), r) : r;
  }
  static D[] expS(D[] a) { int n=a.length; D[] r=new D[n]; double v=Math.exp(a[0].v); r[0]=new D(v, v*(a[0].e+4*U)); 
    for (int k=1;k<n;k++){ D s=ZERO; for(int j=1;j<=k;j++) s=add(s,mul(scale(a[j],j),r[k-j])); r[k]=div(s,new D(k,0)); } return r; }
  static D[] lnS(D[] a) { if (!(a[0].v - a[0].e > 0)) return cst(NAN,a.length-1); D[] w = a.length>1? divS(diff(a), cut(a,a.length-1)) : new D[0];
    return integrate(new D(Math.log(a[0].v), a[0].e/a[0].v + 4*U*Math.abs(Math.log(a[0].v))), w, a.length); }
  static D[] powS(D[] a, D[] b) {
    int n = len(a,b); a = cut(a,n); b = cut(b,n);
    if (a[0].nan() || b[0].nan()) return cst(NAN,n-1);
    if (isConst(b)) {
      double ex = b[0].v;
      if (ex == Math.rint(ex) && b[0].e < 1e-9 && Math.abs(ex) <= 64) return powInt(a, (int) ex);
      if (ex == 0.5 && b[0].e==0) return sqrtS(a);
      if (a[0].v==0 && a[0].e==0 && ex>0) { D[] r = cst(NAN,n-1); r[0]=ZERO; return r; }
    }
    if (!(a[0].v - a[0].e > 0)) return cst(NAN,n-1);
    return expS(mulS(b, lnS(a)));
  }
  static D[] atanS(D[] a) {
    int n=a.length; D[] w = new D[0];
    if (n>1) { D[] c = cut(a,n-1); w = divS(diff(a), addS(cst(ONE,n-2), mulS(c,c))); }
    return integrate(a[0].nan()?NAN:fn(Math.atan(a[0].v), 1/(1+a[0].v*a[0].v), a[0]), w, n);
  }
  static D[] asinS(D[] a) {
    int n=a.length; double x=a[0].v;
    if (a[0].nan() || Math.abs(x)>1) return cst(NAN,n-1);
    double q = 1-x*x; D y0;
    if (x==0&&a[0].e==0) y0=ZERO;
    else if (Math.abs(x)==1 && a[0].e==0) y0=new D(Math.asin(x),4*U);
    else if (q <= 4*a[0].e) y0=NAN;
    else y0=new D(Math.asin(x), a[0].e/Math.sqrt(q)+4*U);
    D[] w=new D[0];
    if (n>1) { D[] c=cut(a,n-1); w=divS(diff(a), sqrtS(addS(cst(ONE,n-2), negS(mulS(c,c))))); if (isConst(a)&&Math.abs(x)<1) w=cst(ZERO,n-2); }
    return integrate(y0,w,n);
  }
  static D[] acosS(D[] a) {
    D[] s = asinS(a); D[] r = new D[s.length];
    r[0] = new D(Math.acos(a[0].v), s[0].e + 4*U); if (s[0].nan()) r[0]=NAN; if (a[0].v==1&&a[0].e==0) r[0]=ZERO;
    for (int k=1;k<s.length;k++) r[k]=neg(s[k]);
    return r;
  }
  static D[] atan2S(D[] y, D[] x) {
    int n=len(x,y); y=cut(y,n); x=cut(x,n);
    if (x[0].nan()||y[0].nan()) return cst(NAN,n-1);
    double r2=x[0].v*x[0].v+y[0].v*y[0].v, er=x[0].e+y[0].e;
    D v0; 
    if (Math.sqrt(r2) <= 4*er || r2==0) v0=NAN;
    else if (x[0].v<0 && Math.abs(y[0].v)<=4*y[0].e) v0=NAN; // cut (zero has a sign)
    else v0=(y[0].v==0&&y[0].e==0&&x[0].v>0)?ZERO:new D(Math.atan2(y[0].v==0?0.0:y[0].v,x[0].v), er/Math.sqrt(r2)+4*U);
    D[] w=new D[0];
    if (n>1) { D[] xc=cut(x,n-1), yc=cut(y,n-1);
      w=divS(addS(mulS(xc,diff(y)), negS(mulS(yc,diff(x)))), addS(mulS(xc,xc),mulS(yc,yc))); }
    return integrate(v0,w,n);
  }
  static int sgn(D a) { // 2: undecided
    if (a.nan()) return 2;
    if (a.v==0 && a.e==0) return 0;
    if (Math.abs(a.v) <= 16*a.e) return 2;
    return a.v>0?1:(a.v<0?-1:0);
  }

  // ---- operators
  public static Value SOrder(Value a) { return IntValue.gen(((TupleValue)a.toTuple()).elems.length/4-1); }
  public static Value SInt(Value n, Value k) { return enc(cst(new D(i(n),0), i(k))); }
  public static Value SRat(Value n, Value d, Value k) { return enc(cst(div(new D(i(n),0),new D(i(d),0)), i(k))); }
  static D lit(Value w, boolean exact) { TupleValue t=(TupleValue)w.toTuple(); double v=dbl(t.elems[0],t.elems[1]);
    return new D(v, exact||(v==Math.rint(v)&&Math.abs(v)<1e9)||v*1024==Math.rint(v*1024) ? 0 : Math.abs(v)*8*U); }
  public static Value SLit(Value w, Value k) { return enc(cst(lit(w,false), i(k))); }
  public static Value SLitX(Value w, Value k) { return enc(cst(lit(w,true), i(k))); }
  public static Value SCoefs(Value ws) { TupleValue t=(TupleValue)ws.toTuple(); D[] r=new D[t.elems.length]; for(int j=0;j<r.length;j++) r[j]=lit(t.elems[j],true); return enc(r); }
  public static Value SAdd(Value a, Value b) { return enc(addS(dec(a),dec(b))); }
  public static Value SSub(Value a, Value b) { return enc(addS(dec(a),negS(dec(b)))); }
  public static Value SNeg(Value a) { return enc(negS(dec(a))); }
  public static Value SMul(Value a, Value b) { return enc(mulS(dec(a),dec(b))); }
  public static Value SDiv(Value a, Value b) { return enc(divS(dec(a),dec(b))); }
  public static Value SPow(Value a, Value b) { return enc(powS(dec(a),dec(b))); }
  public static Value SSin(Value a) { return enc(sincos(dec(a))[0]); }
  public static Value SCos(Value a) { return enc(sincos(dec(a))[1]); }
  public static Value STan(Value a) { D[][] s=sincos(dec(a)); return enc(divS(s[0],s[1])); }
  public static Value SAsin(Value a) { return enc(asinS(dec(a))); }
  public static Value SAcos(Value a) { return enc(acosS(dec(a))); }
  public static Value SAtan(Value a) { return enc(atanS(dec(a))); }
  public static Value SAtan2(Value a, Value b) { return enc(atan2S(dec(a),dec(b))); }
  public static Value SAbs(Value a) { D[] x=dec(a); int s=sgn(x[0]);
    if (s==1) return enc(x); if (s==-1) return enc(negS(x));
    D[] r=cst(NAN,x.length-1); if (x[0].nan()) return enc(r);
    r[0]=new D(Math.abs(x[0].v),x[0].e); if (isConst(x)&&s==0) return enc(cst(ZERO,x.length-1)); return enc(r); }
  public static Value SSign(Value a) { D[] x=dec(a); int s=sgn(x[0]); D[] r=cst(s==2?NAN:new D(s,0),x.length-1); if (s==0&&!isConst(x)) for(int k=1;k<r.length;k++) r[k]=NAN; return enc(r); }
  static D[] cmp(D[] a, D[] b, int want) { int n=len(a,b); int s=sgn(sub(a[0],b[0])); if (s==2) return cst(NAN,n-1);
    D[] r=cst(s==want?ONE:ZERO,n-1); if (s==0 && !isConst(addS(a,negS(b)))) for(int k=1;k<n;k++) r[k]=NAN; return r; }
  public static Value SLess(Value a, Value b) { return enc(cmp(dec(a),dec(b),-1)); }
  public static Value SEqual(Value a, Value b) { return enc(cmp(dec(a),dec(b),0)); }
  public static Value SIf(Value c, Value a, Value b) { D[] x=dec(c), y=dec(a), z=dec(b); int s=sgn(x[0]); int n=len(y,z);
    D[] r = s==2?cst(NAN,n-1):(s!=0?cut(y,n):cut(z,n)); 
    if (s!=2) for (int k=1;k<Math.min(n,x.length);k++) if (x[k].nan()) { r=r.clone(); r[k]=NAN; }
    return enc(r); }
  public static Value STruncDiv(Value a, Value b) { D[] x=dec(a), y=dec(b); if (y[0].v==0) return enc(cst(NAN,x.length-1)); return enc(cst(new D((double)((long)x[0].v/(long)y[0].v),0),x.length-1)); }
  public static Value SD(Value a) { D[] x=dec(a); return enc(x.length==1 ? new D[]{NAN} : diff(x)); }
  public static Value SAt(Value a, Value k) { return enc(new D[]{dec(a)[i(k)]}); }
  public static Value SExt(Value a, Value k) { D[] r=cst(ZERO,i(k)); r[0]=dec(a)[0]; return enc(r); }
  public static Value SMid(Value a) { D[] x=dec(a), r=new D[x.length]; for (int n=0;n<r.length;n++) r[n]=new D(x[n].v,0); return enc(r); }
  public static Value SCut(Value a, Value k) { return enc(cut(dec(a), i(k)+1)); }
  public static Value SDefined(Value a) { for (D d: dec(a)) if (d.nan()) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  static boolean rel(D d) { return !d.nan() && d.e <= 1e-6*(1e-3+Math.abs(d.v)) && Math.abs(d.v)<1e12; }
  public static Value SReliable(Value a) { for (D d: dec(a)) if (!rel(d)) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  static final StringValue EQ=new StringValue("eq"), NE=new StringValue("ne"), NA=new StringValue("na");
  public static Value SCmp(Value a, Value b) {
    D[] x=dec(a), y=dec(b); int n=len(x,y); boolean na=false;
    for (int k=0;k<n;k++) {
      if (!rel(x[k])) { na=true; continue; }
      if (y[k].nan()) return NE;
      if (!rel(y[k]) && y[k].e > 1e-6*(1e-3+Math.abs(x[k].v))) { na=true; continue; }
      double tol = 1e-9*Math.max(Math.abs(x[k].v),Math.abs(y[k].v)) + 64*(x[k].e+y[k].e) + 1e-12;
      if (Math.abs(x[k].v-y[k].v) > tol) return NE;
    }
    return na?NA:EQ;
  }
  public static Value SZero(Value a) { for (D d: dec(a)) if (!(d.v==0&&d.e==0)) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  public static Value SPositive(Value a) { D d=dec(a)[0]; return bool(!d.nan() && d.v > 16*d.e && d.v>0); }
  public static Value SMM(Value a, Value r, Value n, Value k, Value b) {
    Value[] x=((TupleValue)a.toTuple()).elems, y=((TupleValue)b.toTuple()).elems;
    int R=i(r), N=i(n), K=i(k);
    D[][] p=new D[x.length][], q=new D[y.length][];
    for (int j=0;j<x.length;j++) p[j]=dec(x[j]);
    for (int j=0;j<y.length;j++) q[j]=dec(y[j]);
    Value[] z=new Value[R*K];
    for (int u=0;u<R;u++) for (int v=0;v<K;v++) { D[] s=null; for (int m=0;m<N;m++) { D[] t=mulS(p[u*N+m], q[m*K+v]); s = s==null?t:addS(s,t); } z[u*K+v]=enc(s); }
    return new TupleValue(z);
  }
  public static Value SMagLe(Value a, Value n, Value d) { D x=dec(a)[0]; return bool(!x.nan() && Math.abs(x.v)+x.e <= (double)i(n)/i(d)); }
  public static Value SShow(Value a) { StringBuilder s=new StringBuilder(); for (D d: dec(a)) s.append(s.length()>0?" , ":"").append(d.v).append(d.e>0?"~"+String.format("%.1e",d.e):""); return new StringValue(s.toString()); }
}
