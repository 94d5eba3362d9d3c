// Executes programs over the objects of the generator's type model and prints what the objects say about themselves.
// A program is a sequence of lines of tab separated values; "reset" starts the next one.
#include <EasyMock_CType.h>
#include <Function.h>
#include <FunctionDeclaration.h>
#include <FunctionType.h>
#include <Parameter.h>
#include <ReturnValue.h>
#include <StructType.h>
#include <UnionType.h>
#include <ClassType.h>
#include <ComposableField.h>
#include <ComposableBitfield.h>
#include <ConstQualifiedType.h>
#include <TypedefType.h>
#include <Enum.h>
#include <IncompleteType.h>
#include <Pointer.h>
#include <Reference.h>
#include <Namespace.h>
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

using Strs = std::vector<std::string>;
using Ints = std::vector<int>;
struct Obj
{
  std::string k;
  bool imp = false;   // an incomplete type doesn't tell
  std::shared_ptr<TypeItf> t;
  std::shared_ptr<Parameter> p;
  std::shared_ptr<ReturnValue> r;
  std::shared_ptr<ComposableField> f;
  std::shared_ptr<ComposableBitfield> b;
  std::shared_ptr<Function> fn;
  std::shared_ptr<FunctionDeclaration> d;
  int owner = 0, idx = -1;
  std::string s;            // declaration string that was set
  std::string name;
  Strs ns;
  int parent = 0;
  std::string inckw;
  Ints kids;                // what it was made of
  bool live = true;
};
static std::vector<Obj> objs;   // 1-based
static Obj &O(int i) { return objs.at(i); }
static bool isRec(const std::string &k) { return k == "struct" || k == "union" || k == "class"; }
static bool isFun(const std::string &k) { return k == "fn" || k == "func" || k == "decl"; }
static bool isDeclarator(const std::string &k) { return k == "field" || k == "bits" || k == "param" || k == "ret"; }
static bool isType(const std::string &k) { return !isDeclarator(k) && k != "func" && k != "decl"; }

static Function &F(int i)
{
  Obj &o = O(i);
  if(o.k == "fn") return static_cast<FunctionType &>(*o.t);
  return o.d ? static_cast<Function &>(*o.d) : *o.fn;
}
static ComposableType &C(int i) { return static_cast<ComposableType &>(*O(i).t); }
static Parameter &P(int i) { Obj &o = O(i); return o.owner ? F(o.owner).getFunctionsParameters().at(o.idx) : *o.p; }
static ReturnValue &R(int i) { Obj &o = O(i); return o.owner ? const_cast<ReturnValue &>(*F(o.owner).getReturnValue()) : *o.r; }
static ComposableField &Fl(int i) { Obj &o = O(i); return o.owner ? std::get<ComposableField>(C(o.owner).getContainedFields().at(o.idx)) : *o.f; }
static ComposableBitfield &B(int i) { Obj &o = O(i); return o.owner ? std::get<ComposableBitfield>(C(o.owner).getContainedFields().at(o.idx)) : *o.b; }
static Declarator &D(int i)
{
  const std::string &k = O(i).k;
  if(k == "param") return P(i);
  if(k == "ret") return R(i);
  if(k == "field") return Fl(i);
  return B(i);
}
static std::shared_ptr<const Namespace> space(const Strs &ns)
{
  std::shared_ptr<const Namespace> n = getGlobalNamespace();
  for(const auto &x : ns) n = std::make_shared<const Namespace>(x, n);
  return n;
}
static int add(Obj o) { objs.push_back(std::move(o)); return static_cast<int>(objs.size()) - 1; }
static easyMock_cTypes_t ctypeOf(const std::string &n)
{
  for(int c = CTYPE_CHAR; c < CTYPE_INVALID; ++c)
  {
    if(n == easyMock_arrayCTypeStr[c]) return static_cast<easyMock_cTypes_t>(c);
  }
  throw std::runtime_error("no C type " + n);
}
static std::shared_ptr<TypeItf> newRec(const std::string &k, const std::string &n, bool emb)
{
  if(k == "struct") return std::make_shared<StructType>(n, emb);
  if(k == "union") return std::make_shared<UnionType>(n, emb);
  return std::make_shared<ClassType>(n, emb);
}
static int newInc(const TypeItf &of, const std::string &kw)
{
  Obj o; o.k = "inc"; o.inckw = kw;
  o.t = std::make_shared<IncompleteType>(of, kw == "struct" ? IncompleteType::Type::STRUCT : kw == "union" ? IncompleteType::Type::UNION : IncompleteType::Type::CLASS);
  return add(o);
}
static int newDeclarator(const std::string &k, int i, const std::string &n, int v)
{
  Obj o; o.k = k; o.name = n; o.kids = {i};
  std::shared_ptr<TypeItf> t = O(i).t;
  if(k == "param") o.p = std::make_shared<Parameter>(t, n);
  else if(k == "ret") o.r = std::make_shared<ReturnValue>(t);
  else if(k == "bits") o.b = std::make_shared<ComposableBitfield>(t, n, static_cast<uint8_t>(v));
  else if(v == -1) o.f = std::make_shared<ComposableField>(t, n);
  else { ComposableField::attributes a{}; a.arraySize = v; o.f = std::make_shared<ComposableField>(t, n, a); }
  return add(o);
}
static int newFunction(const std::string &k, const std::string &n, const Ints &l, const Strs &ns, int parent)
{
  Obj o; o.k = k; o.name = n; o.ns = ns; o.parent = parent; o.kids = l;
  ReturnValue rv{std::move(R(l.at(0)))};
  Parameter::Vector ps;
  for(size_t x = 1; x < l.size(); ++x) ps.emplace_back(std::move(P(l[x])));
  std::weak_ptr<const ComposableType> pd;
  if(parent) pd = std::static_pointer_cast<const ComposableType>(O(parent).t);
  if(k == "fn") o.t = std::make_shared<FunctionType>(std::move(rv), std::move(ps));
  else if(k == "func") o.fn = std::make_shared<Function>(n, std::move(rv), std::move(ps), pd);
  else if(ns.empty() && !parent) o.d = std::make_shared<FunctionDeclaration>(n, std::move(rv), std::move(ps));
  else o.d = std::make_shared<FunctionDeclaration>(n, std::move(rv), std::move(ps), space(ns), pd);
  int id = add(o);
  for(size_t x = 0; x < l.size(); ++x) { O(l[x]).owner = id; O(l[x]).idx = static_cast<int>(x) - 1; }
  return id;
}
static void addField(int i, int j)
{
  if(O(j).k == "field") C(i).addField(std::move(Fl(j)));
  else C(i).addField(std::move(B(j)));
  O(j).owner = i;
  O(j).idx = static_cast<int>(C(i).getContainedFields().size()) - 1;
  O(i).kids.push_back(j);
}
static void setFlag(int i, const std::string &n, bool b)
{
  if(n == "implicit") { O(i).t->setImplicit(b); O(i).imp = b; }
  else if(n == "fwd") C(i).setForwardDecl(b);
  else if(n == "variadic") F(i).setVariadic(b);
  else if(n == "inline") F(i).setInlined(b);
  else if(n == "static") F(i).setIsStatic(b);
  else if(n == "cconst") F(i).setClassConst(b);
  else if(n == "body") O(i).d->setDoesThisDeclarationHasABody(b);
  else throw std::runtime_error("flag " + n);
}
static FunctionAccessSpecifier accessOf(const std::string &s)
{
  return s == "public" ? FunctionAccessSpecifier::PUBLIC : s == "protected" ? FunctionAccessSpecifier::PROTECTED
       : s == "private" ? FunctionAccessSpecifier::PRIVATE : FunctionAccessSpecifier::NA;
}
struct Op
{
  std::string op; int i = 0, j = 0; std::string n, s; int v = -1; bool b = false; Ints l; Strs w;
};
// a copy of an object, made with the public constructors from copies of its parts
static int copyOf(int i, const Op *e)
{
  std::string k = O(i).k;
  std::string edit = e ? e->n : "";
  if(isType(k) && k != "fn")
  {
    bool implicit = k == "inc" ? O(i).imp : O(i).t->isImplicit();
    int id;
    if(k == "ctype") { Obj o; o.k = k; o.t = std::make_shared<CType>(O(i).t->getCType()); id = add(o); }
    else if(k == "enum")
    {
      auto en = std::make_shared<Enum>(edit == "n" ? e->s : O(i).t->getName());
      Enum::listOfValuesType vals = static_cast<Enum &>(*O(i).t).getValues();
      if(edit == "es") vals.at(e->v - 1).second = e->s;
      if(edit == "ev") vals.at(e->j - 1).first = e->v;
      if(edit == "less") vals.erase(vals.begin() + (e->v - 1));
      if(edit == "rev") std::reverse(vals.begin(), vals.end());
      for(const auto &[v, s] : vals) en->addEnumValue(v, s);
      Obj o; o.k = k; o.t = en; id = add(o);
    }
    else if(k == "inc")
    {
      std::string kw = edit == "x" ? e->s : O(i).inckw;
      std::shared_ptr<TypeItf> of = newRec(kw, O(i).t->getName(), false);
      id = newInc(*of, kw);
    }
    else if(isRec(k))
    {
      Ints parts, kids = O(i).kids;
      for(int x : kids) parts.push_back(copyOf(x, nullptr));
      bool emb = C(i).isDeclarationEmbeddedInOtherType() != (edit == "emb");
      Obj o; o.k = edit == "k" ? e->s : k; o.t = newRec(o.k, edit == "n" ? e->s : O(i).t->getName(), emb);
      id = add(o);
      if(edit == "rev") std::reverse(parts.begin(), parts.end());
      for(int x : parts) addField(id, x);
      C(id).setForwardDecl(C(i).isForwardDeclared());
    }
    else
    {
      int of = copyOf(O(i).kids.at(0), nullptr);
      Obj o; o.k = k; o.kids = {of};
      std::shared_ptr<TypeItf> t = O(of).t;
      if(k == "ptr") o.t = std::make_shared<Pointer>(t);
      else if(k == "ref") o.t = std::make_shared<Reference>(t);
      else if(k == "const") o.t = std::make_shared<ConstQualifiedType>(t);
      else o.t = std::make_shared<TypedefType>(edit == "n" ? e->s : O(i).t->getName(), t);
      id = add(o);
    }
    if(implicit) { O(id).t->setImplicit(true); O(id).imp = true; }
    return id;
  }
  if(isDeclarator(k))
  {
    int of = copyOf(O(i).kids.at(0), nullptr);
    int v = k == "field" ? static_cast<int>(Fl(i).getArraySize()) : k == "bits" ? B(i).getSize() : -1;
    int id = newDeclarator(k, of, edit == "n" ? e->s : O(i).name, edit == "v" ? e->v : v);
    D(id).setDeclareString(D(i).getDeclareString());
    return id;
  }
  Ints parts, kids = O(i).kids;
  for(int x : kids) parts.push_back(copyOf(x, nullptr));
  if(edit == "rev") std::reverse(parts.begin() + 1, parts.end());
  int id = newFunction(k, edit == "n" ? e->s : O(i).name, parts, edit == "ns" ? e->w : O(i).ns, O(i).parent);
  F(id).setVariadic(F(i).isVariadic());
  F(id).setInlined(F(i).isInlined());
  F(id).setIsStatic(F(i).isStatic());
  F(id).setClassConst(F(i).isClassConst());
  F(id).setAccessSpecifier(F(i).getAccessSpecifier());
  for(const auto &a : F(i).getAttributes()) F(id).addAttribute(FunctionAttribute{a.getName(), a.getParameters()});
  if(k == "decl") O(id).d->setDoesThisDeclarationHasABody(O(i).d->doesThisDeclarationHasABody());
  if(k == "fn" && O(i).t->isImplicit()) O(id).t->setImplicit(true);
  return id;
}
template<typename T> static std::shared_ptr<TypeItf> movedType(TypeItf &t) { return std::make_shared<T>(std::move(static_cast<T &>(t))); }
static int moveOf(int i)
{
  Obj o = O(i);
  o.owner = 0; o.idx = -1;
  const std::string &k = o.k;
  if(k == "ctype") o.t = movedType<CType>(*O(i).t);
  else if(k == "ptr") o.t = movedType<Pointer>(*O(i).t);
  else if(k == "ref") o.t = movedType<Reference>(*O(i).t);
  else if(k == "const") o.t = movedType<ConstQualifiedType>(*O(i).t);
  else if(k == "typedef") o.t = movedType<TypedefType>(*O(i).t);
  else if(k == "enum") o.t = movedType<Enum>(*O(i).t);
  else if(k == "struct") o.t = movedType<StructType>(*O(i).t);
  else if(k == "union") o.t = movedType<UnionType>(*O(i).t);
  else if(k == "class") o.t = movedType<ClassType>(*O(i).t);
  else if(k == "fn") o.t = movedType<FunctionType>(*O(i).t);
  else if(k == "func") o.fn = std::make_shared<Function>(std::move(*O(i).fn));
  else if(k == "decl") o.d = std::make_shared<FunctionDeclaration>(std::move(*O(i).d));
  else if(k == "param") o.p = std::make_shared<Parameter>(std::move(P(i)));
  else if(k == "ret") o.r = std::make_shared<ReturnValue>(std::move(R(i)));
  else if(k == "field") o.f = std::make_shared<ComposableField>(std::move(Fl(i)));
  else if(k == "bits") o.b = std::make_shared<ComposableBitfield>(std::move(B(i)));
  int id = add(o);
  if(isRec(k) || isFun(k)) for(int x : O(id).kids) O(x).owner = id;
  O(i).live = false;
  return id;
}
template<typename T> static void assignType(TypeItf &a, TypeItf &b) { static_cast<T &>(a) = std::move(static_cast<T &>(b)); }
static void assignOf(int i, int j)
{
  std::string k = O(i).k;
  if(k == "ctype") assignType<CType>(*O(i).t, *O(j).t);
  else if(k == "ptr") assignType<Pointer>(*O(i).t, *O(j).t);
  else if(k == "ref") assignType<Reference>(*O(i).t, *O(j).t);
  else if(k == "const") assignType<ConstQualifiedType>(*O(i).t, *O(j).t);
  else if(k == "typedef") assignType<TypedefType>(*O(i).t, *O(j).t);
  else if(k == "enum") assignType<Enum>(*O(i).t, *O(j).t);
  else if(k == "struct") assignType<StructType>(*O(i).t, *O(j).t);
  else if(k == "union") assignType<UnionType>(*O(i).t, *O(j).t);
  else if(k == "class") assignType<ClassType>(*O(i).t, *O(j).t);
  else if(k == "fn") assignType<FunctionType>(*O(i).t, *O(j).t);
  else if(k == "func") *O(i).fn = std::move(*O(j).fn);
  else if(k == "decl") *O(i).d = std::move(*O(j).d);
  else if(k == "param") P(i) = std::move(P(j));
  else if(k == "ret") R(i) = std::move(R(j));
  else if(k == "field") Fl(i) = std::move(Fl(j));
  else if(k == "bits") B(i) = std::move(B(j));
  O(j).live = false;
  Obj &a = O(i), &b = O(j);
  if(isRec(k) || isFun(k))
  {
    for(int x : a.kids) O(x).live = false;
    for(int x : b.kids) O(x).owner = i;
  }
  a.kids = b.kids; a.name = b.name; a.ns = b.ns; a.parent = b.parent; a.inckw = b.inckw;
}
static void cacheOf(int i)
{
  const std::string &k = O(i).k;
  if(isType(k)) O(i).t->cacheHash();
  else if(isDeclarator(k)) D(i).cacheHash();
  else if(O(i).d) O(i).d->cacheHash();
  else O(i).fn->cacheHash();
}
static std::size_t hashOf(int i)
{
  const std::string &k = O(i).k;
  if(isType(k)) return static_cast<const TypeItf &>(*O(i).t).getHash();
  if(k == "param") return P(i).getHash();
  if(k == "ret") return R(i).getHash();
  if(k == "field") return Fl(i).getHash();
  if(k == "bits") return B(i).getHash();
  return O(i).d ? O(i).d->getHash() : O(i).fn->getHash();
}
// 1: equal, 2: not different
static int compare(int i, int j)
{
  const std::string &k = O(i).k;
  if(isType(k)) { const TypeItf &a = *O(i).t, &b = *O(j).t; return (a == b) + 2 * !(a != b); }
  if(k == "param") return (P(i) == P(j)) + 2 * !(P(i) != P(j));
  if(k == "ret") return (R(i) == R(j)) + 2 * !(R(i) != R(j));
  if(k == "field") return (Fl(i) == Fl(j)) + 2 * !(Fl(i) != Fl(j));
  if(k == "bits") return (B(i) == B(j)) + 2 * !(B(i) != B(j));
  if(O(i).d) return (*O(i).d == *O(j).d) + 2 * !(*O(i).d != *O(j).d);
  return (*O(i).fn == *O(j).fn) + 2 * !(*O(i).fn != *O(j).fn);
}
static std::string category(int i) { return isType(O(i).k) ? "type" : O(i).k; }
static int idOf(const TypeItf *t)
{
  for(size_t i = 1; i < objs.size(); ++i) if(objs[i].live && objs[i].t && objs[i].t.get() == t) return static_cast<int>(i);
  return -1;
}
// --------------------------------------------------------------------------- JSON
static std::string q(const std::string &s)
{
  std::string r = "\"";
  for(char c : s) { if(c == '"' || c == '\\') r += '\\'; r += c; }
  return r + "\"";
}
static std::string arr(const Ints &v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
static std::string arr(const Strs &v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + q(v[i]); return r + "]"; }

static std::string look(int i)
{
  const std::string k = O(i).k;
  Strs kinds, vals;
  std::string name, text, post, ct;
  Ints ids;       // raw, unqualified, pointed, most pointed, typee, most defined / type of a declarator
  int v = -1, n = -1, bad = 0;
  auto is = [&](bool b, const char *s) { if(b) kinds.push_back(s); };
  if(isType(k))
  {
    TypeItf &t = *O(i).t;
    const TypeItf &c = t;
    is(c.isStruct(), "struct"); is(c.isUnion(), "union"); is(c.isCType(), "ctype"); is(c.isTypedDef(), "typedef");
    is(c.containsTypeDef(), "containstypedef"); is(c.isComposableType(), "composable"); is(c.isPointer(), "ptr");
    is(c.isReference(), "ref"); is(c.isFunctionType(), "fn"); is(c.isEnum(), "enum"); is(c.isIncompleteType(), "inc");
    is(c.isConst(), "const"); is(c.isQualified(), "qualified"); is(c.isImplicit(), "implicit");
    is((c.isComposableType() || c.isEnum()) && c.isAnonymous(), "anonymous");
    // what an object can be cast to is what it says it is, and it stays the same object
    auto cast = [&](bool b, const TypeItf *x, const TypeItf *y) { if(x != (b ? &c : nullptr) || x != y) ++bad; };
    cast(c.isCType(), c.asCType(), t.asCType());
    cast(c.isTypedDef(), c.asTypedefType(), t.asTypedefType());
    cast(c.isComposableType(), c.asComposableType(), t.asComposableType());
    cast(c.isPointer(), c.asPointer(), t.asPointer());
    cast(c.isReference(), c.asReference(), c.asReference());
    cast(c.isFunctionType(), c.asFunctionType(), t.asFunctionType());
    cast(c.isEnum(), c.asEnum(), t.asEnum());
    cast(c.isIncompleteType(), c.asIncompleteType(), t.asIncompleteType());
    cast(c.isQualified(), c.asQualifiedType(), t.asQualifiedType());
    name = c.getName();
    text = c.getDeclarationPrefix();
    if(k == "fn") post = c.getDeclarationPostfix();
    else if(c.getRawType()->isFunctionType()) ;
    else if(c.getFullDeclarationName() != text) ++bad;
    ids = {idOf(t.getRawType()), idOf(t.unqualify()), 0, 0, 0, 0};
    if(c.getRawType() != t.getRawType() || c.unqualify() != t.unqualify()) ++bad;
    if(k == "ptr" || k == "ref")
    {
      Pointer &p = static_cast<Pointer &>(t);
      ids[2] = idOf(p.getPointedType());
      ids[3] = idOf(p.getMostPointedType());
      if(static_cast<const Pointer &>(p).getPointedType() != p.getPointedType()) ++bad;
    }
    if(k == "const") ids[2] = idOf(static_cast<QualifiedType &>(t).getUnqualifiedType());
    if(k == "typedef") { auto &d = static_cast<TypedefType &>(t); ids[4] = idOf(d.getTypee()); ids[5] = idOf(d.getMostDefinedTypee()); }
    if(k == "ctype") ct = easyMock_arrayCTypeStr[c.getCType()];
    else if(c.getCType() != CTYPE_INVALID) ++bad;
    if(k == "enum") for(const auto &[x, s] : static_cast<const Enum &>(c).getValues()) vals.push_back(s + "=" + std::to_string(x));
    if(isRec(k))
    {
      n = static_cast<int>(C(i).getContainedFields().size());
      is(C(i).isDeclarationEmbeddedInOtherType(), "emb");
      is(C(i).isForwardDeclared(), "fwd");
      if(C(i).getComposableTypeKeyword() != k) ++bad;
      if(C(i).getFunctions().size() != static_cast<size_t>(std::count_if(objs.begin() + 1, objs.end(), [&](const Obj &o) { return o.k == "decl" && o.live && o.owner == i; }))) ++bad;
    }
    if(k == "inc" && static_cast<const IncompleteType &>(c).getComposableTypeKeyword() != O(i).inckw) ++bad;
  }
  else if(isDeclarator(k))
  {
    Declarator &d = D(i);
    text = d.getDeclareString();
    ids = {idOf(d.getType())};
    if(static_cast<const Declarator &>(d).getType() != d.getType()) ++bad;
    if(k == "param") name = P(i).getName();
    if(k == "field" || k == "bits")
    {
      ComposableFieldItf &f = k == "field" ? static_cast<ComposableFieldItf &>(Fl(i)) : static_cast<ComposableFieldItf &>(B(i));
      name = f.getName();
      is(f.isAnonymous(), "anonymous"); is(f.isComposableField(), "field"); is(f.isComposableBitfield(), "bits");
      if((f.asComposableField() == nullptr) != (k != "field") || (f.asComposableBitfield() == nullptr) != (k != "bits")) ++bad;
      if(k == "field")
      {
        v = static_cast<int>(Fl(i).getArraySize());
        is(Fl(i).isArray(), "array"); is(Fl(i).isBoundSpecifiedArray(), "bound"); is(Fl(i).isUnboundSpecifiedArray(), "unbound");
        is(Fl(i).isIncompleteTypeField(), "incfield");
      }
      else v = B(i).getSize();
    }
  }
  if(isFun(k))
  {
    Function &f = F(i);
    const Function &c = f;
    is(c.isVariadic(), "variadic"); is(c.isInlined(), "inline"); is(c.isStatic(), "static"); is(c.isClassConst(), "cconst");
    is(c.isMemberClass(), "member");
    kinds.push_back(c.getAccessSpecifierStr());
    if(c.getAccessSpecifier() != accessOf(c.getAccessSpecifierStr())) ++bad;
    n = static_cast<int>(c.getFunctionsParameters().size());
    for(const auto &a : c.getAttributes()) { std::string s = a.getName(); for(const auto &p : a.getParameters()) s += "/" + p; vals.push_back(s); }
    if(c.getParentData().get() != (O(i).parent ? O(O(i).parent).t.get() : nullptr)) ++bad;
    if(k != "fn")
    {
      name = *c.getName();
      text = c.getFunctionPrototype();
      if(O(i).d) { is(O(i).d->doesThisDeclarationHasABody(), "body"); if(O(i).d->getMockType() != ETS_function) ++bad; }
    }
  }
  Ints cand, eq, rev, ne;
  for(size_t j = 1; j < objs.size(); ++j)
  {
    if(!objs[j].live || category(static_cast<int>(j)) != category(i)) continue;
    int a = compare(i, static_cast<int>(j)), b = compare(static_cast<int>(j), i);
    cand.push_back(static_cast<int>(j));
    if(a & 1) eq.push_back(static_cast<int>(j));
    if(b & 1) rev.push_back(static_cast<int>(j));
    if(!(a & 2)) ne.push_back(static_cast<int>(j));
  }
  std::ostringstream os;
  os << "\"d\":{\"kinds\":" << arr(kinds) << ",\"name\":" << q(name) << ",\"text\":" << q(text) << ",\"post\":" << q(post) << ",\"ct\":" << q(ct)
     << ",\"ids\":" << arr(ids) << ",\"vals\":" << arr(vals) << ",\"v\":" << v << ",\"n\":" << n << ",\"bad\":" << bad << "},\"h\":\"" << hashOf(i)
     << "\",\"cand\":" << arr(cand) << ",\"eq\":" << arr(eq) << ",\"rev\":" << arr(rev) << ",\"ne\":" << arr(ne);
  return os.str();
}

static Strs split(const std::string &s, char sep)
{
  Strs r;
  std::string cur;
  for(char c : s) { if(c == sep) { r.push_back(cur); cur.clear(); } else cur += c; }
  r.push_back(cur);
  return r;
}

int main()
{
  std::string line;
  objs.resize(1);
  objs[0].live = false;
  while(std::getline(std::cin, line))
  {
    if(line == "reset")
    {
      objs.clear(); objs.resize(1); objs[0].live = false;
      std::cout << "reset" << std::endl;
      continue;
    }
    Strs c = split(line, '\t');
    Op o;
    o.op = c.at(0); o.i = std::stoi(c.at(1)); o.j = std::stoi(c.at(2)); o.n = c.at(3); o.s = c.at(4); o.v = std::stoi(c.at(5)); o.b = c.at(6) == "1";
    if(!c.at(7).empty()) for(const auto &x : split(c[7], ',')) o.l.push_back(std::stoi(x));
    if(!c.at(8).empty()) o.w = split(c[8], ',');
    int ret = 0;
    if(o.op == "ctype") { Obj x; x.k = "ctype"; x.t = std::make_shared<CType>(ctypeOf(o.n)); add(x); }
    else if(o.op == "enum") { Obj x; x.k = "enum"; x.t = std::make_shared<Enum>(o.n); add(x); }
    else if(o.op == "rec") { Obj x; x.k = o.s; x.t = newRec(o.s, o.n, o.b); add(x); }
    else if(o.op == "inc") { bool imp = O(o.i).t->isImplicit(); O(newInc(*O(o.i).t, o.s)).imp = imp; }
    else if(o.op == "ptr") { Obj x; x.k = o.op; x.kids = {o.i}; x.t = std::make_shared<Pointer>(O(o.i).t); add(x); }
    else if(o.op == "ref") { Obj x; x.k = o.op; x.kids = {o.i}; x.t = std::make_shared<Reference>(O(o.i).t); add(x); }
    else if(o.op == "const") { Obj x; x.k = o.op; x.kids = {o.i}; x.t = std::make_shared<ConstQualifiedType>(O(o.i).t); add(x); }
    else if(o.op == "typedef") { Obj x; x.k = o.op; x.kids = {o.i}; x.t = std::make_shared<TypedefType>(o.n, O(o.i).t); add(x); }
    else if(isDeclarator(o.op)) newDeclarator(o.op, o.i, o.n, o.v);
    else if(isFun(o.op)) newFunction(o.op, o.n, o.l, o.w, o.j);
    else if(o.op == "addfield") addField(o.i, o.j);
    else if(o.op == "addmethod") { C(o.i).addFunction(O(o.j).d); O(o.j).owner = o.i; }
    else if(o.op == "addvalue") static_cast<Enum &>(*O(o.i).t).addEnumValue(o.v, o.s);
    else if(o.op == "unsigned") ret = static_cast<CType &>(*O(o.i).t).setUnsigned(o.b);
    else if(o.op == "array") ret = Fl(o.i).setArraySize(o.v);
    else if(o.op == "declstring") D(o.i).setDeclareString(o.s);
    else if(o.op == "flag") setFlag(o.i, o.n, o.b);
    else if(o.op == "access") F(o.i).setAccessSpecifier(accessOf(o.s));
    else if(o.op == "attr") F(o.i).addAttribute(o.w.empty() ? FunctionAttribute{o.n} : FunctionAttribute{o.n, o.w});
    else if(o.op == "repoint")
    {
      if(O(o.i).k == "ptr") static_cast<Pointer &>(*O(o.i).t).setPointedType(O(o.j).t);
      else static_cast<QualifiedType &>(*O(o.i).t).setUnqualifiedType(O(o.j).t);
      O(o.i).kids = {o.j};
    }
    else if(o.op == "clone") copyOf(o.i, &o);
    else if(o.op == "move") moveOf(o.i);
    else if(o.op == "assign") assignOf(o.i, o.j);
    else if(o.op == "cache") cacheOf(o.i);
    else if(o.op != "look") throw std::runtime_error("op " + o.op);
    std::cout << "{\"ret\":" << ret << ",\"top\":" << objs.size() - 1 << (o.op == "look" ? "," + look(o.i) : "") << "}" << std::endl;
  }
}
