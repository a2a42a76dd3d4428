// Observation functions, compiled into the same extension module as the code
// under verification and called through ctypes.  They use only the public
// interface of the classes and never change an object, except where the
// operation asked for does so itself (subs, simplify).
#include <Python.h>
#include <string>
#include <sstream>
#include <vector>
#include <cstring>
#include <cstdint>
#include "Symbolics.h"
#include "CBasic.h"
#include "CGraph.h"
#include "convert.h"
#include "SymbolicsError.h"
#include "PyFactory.h"
#include "Graph.h"
#include "CPrinter.h"
#include "CSharpPrinter.h"
#include "FortranPrinter.h"
#include "MatlabPrinter.h"
#include "ModelicaPrinter.h"
#include "PythonPrinter.h"

using namespace Symbolics;
using namespace Symbolics::Python;

static void halves(std::ostream &o, double v)
{
  uint64_t b; memcpy(&b, &v, 8);
  o << "[" << (int32_t)(b >> 32) << "," << (int32_t)(b & 0xffffffffu) << "]";
}
static const char *tname(Basic_Type t)
{
  switch (t) {
  case Type_Bool: return "bool"; case Type_Symbol: return "sym"; case Type_Zero: return "zero"; case Type_Eye: return "eye";
  case Type_Int: return "int"; case Type_Real: return "real"; case Type_Matrix: return "mat"; case Type_Neg: return "neg";
  case Type_Add: return "add"; case Type_Mul: return "mul"; case Type_Pow: return "pow"; case Type_Sin: return "sin";
  case Type_Cos: return "cos"; case Type_Der: return "der"; case Type_Element: return "elem"; case Type_Atan: return "atan";
  case Type_Solve: return "solve"; case Type_Atan2: return "atan2"; case Type_Abs: return "abs"; case Type_Acos: return "acos";
  case Type_Asin: return "asin"; case Type_Scalar: return "scalar"; case Type_Skew: return "skew"; case Type_Transpose: return "transp";
  case Type_Unknown: return "unknown"; case Type_Tan: return "tan"; case Type_If: return "if"; case Type_Greater: return "greater";
  case Type_Less: return "less"; case Type_Equal: return "equal"; case Type_Sign: return "sign"; case Type_Jacobian: return "jac";
  case Type_Outer: return "outer"; case Type_Inverse: return "inv";
  }
  return "?";
}
static std::string esc(std::string const &s)
{
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
struct TooBig {};
static void dump(std::ostream &o, BasicPtr const &p, int depth, size_t &budget)
{
  if (depth > 300 || budget == 0) throw TooBig();
  --budget;
  Shape const &s = p->getShape();
  o << "{\"t\":\"" << tname(p->getType()) << "\",\"s\":[" << s.getNrDimensions() << "," << s.getDimension(1) << "," << s.getDimension(2) << "]";
  bool args = true;
  switch (p->getType()) {
  case Type_Symbol: { Symbol *y = Util::getAsPtr<Symbol>(p); o << ",\"n\":\"" << esc(y->getName()) << "\",\"k\":" << y->getKind(); args = false; break; }
  case Type_Int: { int v = Util::getAsPtr<Int>(p)->getValue(); o << ",\"v\":"; halves(o, v); args = false; break; }
  case Type_Real: { double v = Util::getAsPtr<Real>(p)->getValue(); o << ",\"v\":"; halves(o, v); args = false; break; }
  case Type_Bool: { bool v = Util::getAsPtr<Bool>(p)->getValue(); o << ",\"v\":"; halves(o, v ? 1 : 0); args = false; break; }
  case Type_Zero: case Type_Eye: args = false; break;
  case Type_Element: { Element *e = Util::getAsPtr<Element>(p); o << ",\"i\":" << e->getRow() << ",\"j\":" << e->getCol(); break; }
  case Type_Unknown: o << ",\"n\":\"" << esc(Util::getAsPtr<Unknown>(p)->getName()) << "\""; break;
  case Type_Matrix: {
    // every component as it is read, whatever the storage scheme
    Matrix *m = Util::getAsPtr<Matrix>(p);
    o << ",\"a\":["; bool first = true;
    for (size_t i = 0; i < s.getDimension(1); ++i) for (size_t j = 0; j < s.getDimension(2); ++j) {
      if (!first) o << ","; first = false; dump(o, m->get(i, j), depth + 1, budget); }
    o << "]"; args = false; break; }
  default: break;
  }
  if (args) {
    o << ",\"a\":[";
    for (size_t i = 0; i < p->getArgsSize(); ++i) { if (i) o << ","; dump(o, p->getArg(i), depth + 1, budget); }
    o << "]";
  }
  o << "}";
}
static std::string dumps(BasicPtr const &p)
{
  if (p.get() == NULL) return "{\"t\":\"null\",\"s\":[0,0,0]}";
  std::ostringstream o; size_t budget = 200000;
  try { dump(o, p, 0, budget); } catch (TooBig &) { return "{\"t\":\"toobig\",\"s\":[0,0,0]}"; }
  return o.str();
}
// result as Python object that keeps the expression (also for Int and Real)
static PyObject *wrap(BasicPtr b)
{
  CBasicObject *basic = new CBasicObject();
  basic->m_basic = b;
  PyTypeObject *t = &CBasicObjectType;
  switch (b->getType()) { case Type_Int: case Type_Real: break; default: t = PyFactory::ObjectType(b); }
  PyObject *o = PyObject_Init(basic, t);
  Py_IncRef(o);
  return o;
}
static BasicPtr arg(PyObject *t, int i)
{
  PyObject *o = PyTuple_GetItem(t, i);
  if (o == NULL) { PyErr_Clear(); throw InternalError("vv: missing argument"); }
  if (PyBool_Check(o)) return Bool::New(o == Py_True);
  BasicPtr b = getBasic(o);
  if (b.get() == NULL) throw InternalError("vv: not a CBasic");
  return b;
}
static PyObject *pystr(std::string const &s) { return PyUnicode_DecodeLatin1(s.data(), s.size(), NULL); }

static Printer *printer(std::string const &l)
{
  if (l == "c") return new CPrinter(); if (l == "cs") return new CSharpPrinter();
  if (l == "f90") return new FortranPrinter(); if (l == "m") return new MatlabPrinter(); if (l == "mo") return new ModelicaPrinter();
  return new PythonPrinter();
}

extern "C" PyObject *vv_dump(PyObject *o)
{
  try { BasicPtr b = getBasic(o); if (b.get() == NULL) return pystr("{\"t\":\"foreign\",\"s\":[0,0,0]}"); return pystr(dumps(b)); }
  STD_ERROR_HANDLER(NULL);
}

extern "C" PyObject *vv_op(const char *opn, PyObject *t)
{
  std::string op(opn);
  try {
    if (op == "wrap") return wrap(arg(t, 0));
    if (op == "subs") return wrap(arg(t, 0)->subs(arg(t, 1), arg(t, 2)));
    if (op == "dt") return wrap(arg(t, 0)->der());
    if (op == "dx") return wrap(arg(t, 0)->der(arg(t, 1)));
    if (op == "simplify") return wrap(arg(t, 0)->simplify());
    if (op == "eq") return PyBool_FromLong(arg(t, 0) == arg(t, 1));
    if (op == "ne") return PyBool_FromLong(arg(t, 0) != arg(t, 1));
    if (op == "lt") return PyBool_FromLong(arg(t, 0) < arg(t, 1));
    if (op == "solve_for") return wrap(arg(t, 0)->solve(arg(t, 1)));
    if (op == "str") return pystr(arg(t, 0)->toString());
    if (op == "atoms") {
      Basic::BasicSet s = arg(t, 0)->getAtoms();
      std::string r = "["; for (Basic::BasicSet::iterator i = s.begin(); i != s.end(); ++i) { if (r.size() > 1) r += ","; r += dumps(*i); }
      return pystr(r + "]");
    }
    if (op == "print") {
      std::string l = PyUnicode_AsUTF8(PyTuple_GetItem(t, 1));
      Printer *p = printer(l); std::string s = p->print(arg(t, 0)); int e = p->getErrorcount();
      delete p;
      return Py_BuildValue("(Ni)", pystr(s), e);
    }
    if (op == "raw") { // build without New's folding: the class constructors, as the C++ library offers them
      std::string c = PyUnicode_AsUTF8(PyTuple_GetItem(t, 0));
      if (c == "add") return wrap(BasicPtr(new Add(arg(t, 1), arg(t, 2))));
      if (c == "mul") return wrap(BasicPtr(new Mul(arg(t, 1), arg(t, 2))));
    }
    if (op == "int") return wrap(Int::New((int)PyLong_AsLong(PyTuple_GetItem(t, 0))));
    if (op == "real") return wrap(Real::New(PyFloat_AsDouble(PyTuple_GetItem(t, 0))));
    if (op == "bool") return wrap(Bool::New(PyTuple_GetItem(t, 0) == Py_True));
    if (op == "shape") { BasicPtr b = arg(t, 0); Shape s = b->getShape(); return Py_BuildValue("(nnn)", s.getNrDimensions(), s.getDimension(1), s.getDimension(2)); }
    if (op == "setpow") return wrap(Pow::New(arg(t, 0), arg(t, 1)));
  }
  STD_ERROR_HANDLER(NULL);
  PyErr_SetString(PyExc_ValueError, "vv: unknown operation");
  return NULL;
}

// Graph: everything visible through its public interface
extern "C" PyObject *vv_graph(const char *opn, PyObject *g, PyObject *t)
{
  std::string op(opn);
  Graph::Graph *gr = static_cast<CGraphObject *>(g)->m_graph;
  try {
    if (op == "makeScalar") { gr->makeScalar(); Py_RETURN_NONE; }
    if (op == "build") { gr->buildGraph(PyTuple_GetItem(t, 0) == Py_True); Py_RETURN_NONE; }
    if (op == "vars") {
      SymbolPtrVec v = gr->getVariables((Symbol_Kind)PyLong_AsLong(PyTuple_GetItem(t, 0)));
      std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += dumps(v[i]); }
      return pystr(r + "]");
    }
    if (op == "assignments") {
      Graph::AssignmentsPtr a = gr->getAssignments((Graph::Category_Type)PyLong_AsLong(PyTuple_GetItem(t, 0)), (Graph::Category_Type)PyLong_AsLong(PyTuple_GetItem(t, 1)));
      std::vector<Graph::Assignment> v = a->getEquations();
      std::string r = "[";
      for (size_t i = 0; i < v.size(); ++i) {
        if (i) r += ",";
        r += "{\"lhs\":["; for (size_t k = 0; k < v[i].lhs.size(); ++k) r += (k ? "," : "") + dumps(v[i].lhs[k]);
        r += "],\"rhs\":["; for (size_t k = 0; k < v[i].rhs.size(); ++k) r += (k ? "," : "") + dumps(v[i].rhs[k]);
        r += std::string("],\"imp\":") + (v[i].implizit ? "true" : "false") + "}";
      }
      return pystr(r + "]");
    }
    if (op == "initval") { BasicPtr b = gr->getinitVal(gr->getSymbol(PyUnicode_AsUTF8(PyTuple_GetItem(t, 0)))); return pystr(dumps(b)); }
    if (op == "equation") { BasicPtr b = gr->getEquation(gr->getSymbol(PyUnicode_AsUTF8(PyTuple_GetItem(t, 0)))); return pystr(dumps(b)); }
    if (op == "comment") return pystr(gr->getComment(gr->getSymbol(PyUnicode_AsUTF8(PyTuple_GetItem(t, 0)))));
  }
  STD_ERROR_HANDLER(NULL);
  PyErr_SetString(PyExc_ValueError, "vv: unknown graph operation");
  return NULL;
}
