/* irdump: reads one LLVM bitcode module (clang -O0 -g, without optnone),
 * canonicalises it (mem2reg; optionally inlines internal functions first) and
 * writes a JSON description of the resolved program: types with member names
 * from the debug information, globals with initialisers, functions with their
 * control-flow graph and instructions.  No analysis happens here. */
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string ditype (const DIType *t, int depth = 0)
{
  if (!t) return "void";
  if (depth > 24) return "...";
  if (auto *b = dyn_cast<DIBasicType> (t)) return b->getName ().str ();
  if (auto *d = dyn_cast<DIDerivedType> (t)) {
    switch (d->getTag ()) {
    case dwarf::DW_TAG_typedef: return d->getName ().str ();
    case dwarf::DW_TAG_pointer_type: return ditype (d->getBaseType (), depth + 1) + "*";
    case dwarf::DW_TAG_const_type: return "const " + ditype (d->getBaseType (), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + ditype (d->getBaseType (), depth + 1);
    case dwarf::DW_TAG_restrict_type: return ditype (d->getBaseType (), depth + 1);
    default: return ditype (d->getBaseType (), depth + 1);
    }
  }
  if (auto *c = dyn_cast<DICompositeType> (t)) {
    if (c->getTag () == dwarf::DW_TAG_array_type)
      return ditype (c->getBaseType (), depth + 1) + "[]";
    std::string n = c->getName ().str ();
    if (c->getTag () == dwarf::DW_TAG_enumeration_type) return "enum " + n;
    if (c->getTag () == dwarf::DW_TAG_union_type) return "union " + n;
    return "struct " + n;
  }
  if (auto *s = dyn_cast<DISubroutineType> (t)) {
    std::string r = "fn(";
    auto arr = s->getTypeArray ();
    for (unsigned i = 0; i < arr.size (); ++i) {
      if (i) r += ",";
      r += ditype (arr[i], depth + 1);
    }
    return r + ")";
  }
  return "?";
}
/* strip typedefs and const */
static const DIType *strip (const DIType *t)
{
  while (auto *d = dyn_cast_or_null<DIDerivedType> (t)) {
    if (d->getTag () == dwarf::DW_TAG_pointer_type || d->getTag () == dwarf::DW_TAG_member) break;
    t = d->getBaseType ();
  }
  return t;
}

struct Dumper {
  Module &M;
  const DataLayout &DL;
  std::map<std::string, const DICompositeType *> comp;   /* LLVM struct name -> DI */
  std::map<const Value *, int> ids;
  std::map<std::string, int> files;
  std::vector<std::string> filev;
  std::vector<std::string> typev;
  std::map<const Type *, int> typeids;
  std::set<StructType *> structs;

  Dumper (Module & m):M (m), DL (m.getDataLayout ()) {}

  int fileId (StringRef dir, StringRef f)
  {
    std::string p = f.startswith ("/") ? f.str () : (dir + "/" + f).str ();
    auto it = files.find (p);
    if (it != files.end ()) return it->second;
    int n = filev.size ();
    files[p] = n;
    filev.push_back (p);
    return n;
  }
  int typeId (const Type *t)
  {
    auto it = typeids.find (t);
    if (it != typeids.end ()) return it->second;
    std::string s;
    raw_string_ostream os (s);
    t->print (os, false, true);
    os.flush ();
    int n = typev.size ();
    typeids[t] = n;
    typev.push_back (s);
    return n;
  }
  void collectStruct (Type *t)
  {
    if (auto *s = dyn_cast<StructType> (t)) {
      if (!structs.insert (s).second) return;
      for (auto *e:s->elements ()) collectStruct (e);
    }
    else if (auto *a = dyn_cast<ArrayType> (t)) collectStruct (a->getElementType ());
  }
  void buildComp ()
  {
    DebugInfoFinder F;
    F.processModule (M);
    for (auto *t:F.types ()) {
      if (auto *c = dyn_cast<DICompositeType> (t)) {
        if (c->isForwardDecl ()) continue;
        std::string pre = c->getTag () == dwarf::DW_TAG_union_type ? "union." : "struct.";
        if (!c->getName ().empty ()) comp[pre + c->getName ().str ()] = c;
      }
      else if (auto *d = dyn_cast<DIDerivedType> (t)) {
        if (d->getTag () == dwarf::DW_TAG_typedef) {
          if (auto *c = dyn_cast_or_null<DICompositeType> (strip (d->getBaseType ()))) {
            if (c->getName ().empty ()) {
              std::string pre = c->getTag () == dwarf::DW_TAG_union_type ? "union." : "struct.";
              comp[pre + d->getName ().str ()] = c;
            }
          }
        }
      }
    }
  }
  std::string baseName (StructType * s)
  {
    if (!s->hasName ()) return "";
    return s->getName ().str ();
  }
  const DICompositeType *lookup (StructType * s)
  {
    std::string n = baseName (s);
    auto it = comp.find (n);
    if (it != comp.end ()) return it->second;
    /* strip numeric suffix */
    auto p = n.rfind ('.');
    if (p != std::string::npos && p + 1 < n.size () && isdigit (n[p + 1])) {
      it = comp.find (n.substr (0, p));
      if (it != comp.end ()) return it->second;
    }
    return nullptr;
  }
  /* match nested anonymous members: propagate DI composite types */
  std::map<StructType *, const DICompositeType *> anonDI;
  void propagateAnon ()
  {
    std::vector<StructType *> work (structs.begin (), structs.end ());
    bool ch = true;
    for (int rounds = 0; ch && rounds < 6; ++rounds) {
      ch = false;
      for (auto *s:work) {
        const DICompositeType *c = lookup (s);
        if (!c) { auto it = anonDI.find (s); if (it != anonDI.end ()) c = it->second; }
        if (!c || s->isOpaque ()) continue;
        const StructLayout *SL = DL.getStructLayout (s);
        for (auto *el:c->getElements ()) {
          auto *m = dyn_cast<DIDerivedType> (el);
          if (!m || m->getTag () != dwarf::DW_TAG_member) continue;
          const DIType *mt = strip (m->getBaseType ());
          auto *mc = dyn_cast_or_null<DICompositeType> (mt);
          if (!mc) continue;
          uint64_t off = m->getOffsetInBits () / 8;
          for (unsigned i = 0; i < s->getNumElements (); ++i) {
            if (SL->getElementOffset (i) != off) continue;
            Type *et = s->getElementType (i);
            while (auto *a = dyn_cast<ArrayType> (et)) et = a->getElementType ();
            const DIType *mt2 = mt;
            while (auto *ac = dyn_cast_or_null<DICompositeType> (mt2)) {
              if (ac->getTag () != dwarf::DW_TAG_array_type) break;
              mt2 = strip (ac->getBaseType ());
            }
            auto *es = dyn_cast<StructType> (et);
            auto *mc2 = dyn_cast_or_null<DICompositeType> (mt2);
            if (es && mc2 && !lookup (es) && !anonDI.count (es) && mc2->getSizeInBits () / 8 == DL.getTypeAllocSize (es)) {
              anonDI[es] = mc2;
              ch = true;
            }
          }
        }
      }
    }
  }
  json::Value structsJson ()
  {
    json::Object o;
    for (auto *s:structs) {
      if (!s->hasName ()) continue;
      json::Object so;
      if (s->isOpaque ()) { so["opaque"] = true; o[s->getName ().str ()] = std::move (so); continue; }
      const StructLayout *SL = DL.getStructLayout (s);
      so["size"] = (int64_t) DL.getTypeAllocSize (s);
      const DICompositeType *c = lookup (s);
      if (!c) { auto it = anonDI.find (s); if (it != anonDI.end ()) c = it->second; }
      json::Array el;
      for (unsigned i = 0; i < s->getNumElements (); ++i) {
        json::Object e;
        e["off"] = (int64_t) SL->getElementOffset (i);
        e["sz"] = (int64_t) DL.getTypeAllocSize (s->getElementType (i));
        e["t"] = typeId (s->getElementType (i));
        el.push_back (std::move (e));
      }
      so["elems"] = std::move (el);
      if (c) {
        so["union"] = c->getTag () == dwarf::DW_TAG_union_type;
        json::Array mem;
        for (auto *x:c->getElements ()) {
          auto *m = dyn_cast<DIDerivedType> (x);
          if (!m || m->getTag () != dwarf::DW_TAG_member) continue;
          json::Object mo;
          mo["n"] = m->getName ().str ();
          mo["off"] = (int64_t) (m->getOffsetInBits () / 8);
          mo["sz"] = (int64_t) (m->getSizeInBits () / 8);
          mo["t"] = ditype (m->getBaseType ());
          mo["rt"] = ditype (strip (m->getBaseType ()));
          mem.push_back (std::move (mo));
        }
        so["members"] = std::move (mem);
      }
      o[s->getName ().str ()] = std::move (so);
    }
    return o;
  }

  json::Value constJson (const Constant * c, int depth = 0)
  {
    if (auto *ci = dyn_cast<ConstantInt> (c)) {
      if (ci->getBitWidth () > 64) return json::Object {{"k", "big"}};
      return json::Object {{"k", "c"}, {"v", ci->getBitWidth () == 1 ? (int64_t) ci->getZExtValue () : ci->getSExtValue ()}, {"w", (int64_t) ci->getBitWidth ()}};
    }
    if (isa<ConstantPointerNull> (c)) return json::Object {{"k", "null"}};
    if (auto *f = dyn_cast<Function> (c)) return json::Object {{"k", "f"}, {"n", f->getName ().str ()}};
    if (auto *g = dyn_cast<GlobalVariable> (c)) return json::Object {{"k", "g"}, {"n", g->getName ().str ()}};
    if (auto *cf = dyn_cast<ConstantFP> (c)) {
      SmallString<32> s; cf->getValueAPF ().toString (s);
      return json::Object {{"k", "fp"}, {"v", s.str ().str ()}};
    }
    if (isa<UndefValue> (c)) return json::Object {{"k", "undef"}};
    if (isa<ConstantAggregateZero> (c)) {
      Type *t = c->getType ();
      return json::Object {{"k", "zero"}, {"t", typeId (t)}};
    }
    if (auto *ce = dyn_cast<ConstantExpr> (c)) {
      json::Object o;
      o["k"] = "ce";
      o["op"] = ce->getOpcodeName ();
      json::Array ops;
      for (auto &x:ce->operands ()) ops.push_back (constJson (cast<Constant> (x), depth + 1));
      o["ops"] = std::move (ops);
      if (auto *ge = dyn_cast<GEPOperator> (ce)) o["gep"] = gepJson (ge);
      return o;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential> (c)) {
      json::Object o;
      o["k"] = "arr";
      if (cd->isString () || cd->isCString ()) { o["s"] = json::fixUTF8 (cd->isCString()?cd->getAsCString ():cd->getAsString ()); }
      json::Array a;
      for (unsigned i = 0; i < cd->getNumElements (); ++i) {
        Constant *e = cd->getElementAsConstant (i);
        if (auto *ci = dyn_cast<ConstantInt> (e)) a.push_back (ci->getSExtValue ());
        else if (auto *cf = dyn_cast<ConstantFP> (e)) {
          double d;
          if (&cf->getValueAPF ().getSemantics () == &APFloat::IEEEdouble ()) d = cf->getValueAPF ().convertToDouble ();
          else d = cf->getValueAPF ().convertToFloat ();
          a.push_back (d);
        }
      }
      o["v"] = std::move (a);
      return o;
    }
    if (auto *ca = dyn_cast<ConstantAggregate> (c)) {
      json::Object o;
      o["k"] = isa<ConstantStruct> (ca) ? "struct" : "arr";
      json::Array a;
      for (auto &x:ca->operands ()) a.push_back (constJson (cast<Constant> (x), depth + 1));
      o["v"] = std::move (a);
      return o;
    }
    return json::Object {{"k", "other"}};
  }
  json::Value gepJson (const GEPOperator * ge)
  {
    json::Object o;
    o["st"] = typeId (ge->getSourceElementType ());
    json::Array steps;
    Type *t = ge->getSourceElementType ();
    bool first = true;
    for (auto it = ge->idx_begin (); it != ge->idx_end (); ++it) {
      const Value *v = *it;
      if (first) {
        first = false;
        json::Object so;
        so["i"] = opJson (v);
        so["sz"] = (int64_t) (t->isSized () ? DL.getTypeAllocSize (t) : 0);
        so["first"] = true;
        steps.push_back (std::move (so));
        continue;
      }
      if (auto *st = dyn_cast<StructType> (t)) {
        unsigned i = cast<ConstantInt> (v)->getZExtValue ();
        json::Object so;
        so["s"] = st->hasName () ? st->getName ().str () : "";
        so["e"] = (int64_t) i;
        steps.push_back (std::move (so));
        collectStruct (st);
        t = st->getElementType (i);
      }
      else {
        uint64_t alen = isa<ArrayType> (t) ? cast<ArrayType> (t)->getNumElements () : 0;
        t = cast<ArrayType> (t)->getElementType ();
        json::Object so;
        so["n"] = (int64_t) alen;
        so["i"] = opJson (v);
        so["sz"] = (int64_t) DL.getTypeAllocSize (t);
        steps.push_back (std::move (so));
      }
    }
    o["steps"] = std::move (steps);
    return o;
  }
  json::Value opJson (const Value * v)
  {
    auto it = ids.find (v);
    if (it != ids.end ()) return it->second;
    if (auto *c = dyn_cast<Constant> (v)) return constJson (c);
    if (isa<MetadataAsValue> (v)) return json::Object {{"k", "md"}};
    if (isa<InlineAsm> (v)) return json::Object {{"k", "asm"}};
    return json::Object {{"k", "?"}};
  }
  json::Value dbgJson (const DebugLoc & dl)
  {
    /* [file, line, col, fn, inlinedAt...] */
    if (!dl) return nullptr;
    json::Array a;
    const DILocation *l = dl.get ();
    a.push_back (fileId (l->getDirectory (), l->getFilename ()));
    a.push_back ((int64_t) l->getLine ());
    a.push_back ((int64_t) l->getColumn ());
    a.push_back (l->getScope ()->getSubprogram ()->getName ().str ());
    if (const DILocation * ia = l->getInlinedAt ()) {
      json::Array b;
      while (ia) {
        b.push_back (json::Array {fileId (ia->getDirectory (), ia->getFilename ()), (int64_t) ia->getLine (), (int64_t) ia->getColumn (), ia->getScope ()->getSubprogram ()->getName ().str ()});
        ia = ia->getInlinedAt ();
      }
      a.push_back (std::move (b));
    }
    return a;
  }
  json::Value func (Function & F)
  {
    json::Object o;
    o["name"] = F.getName ().str ();
    o["internal"] = F.hasLocalLinkage ();
    o["avail"] = F.hasAvailableExternallyLinkage ();
    o["noreturn"] = F.doesNotReturn ();
    o["vararg"] = F.isVarArg ();
    ids.clear ();
    int n = 0;
    json::Array params;
    for (auto &a:F.args ()) { ids[&a] = n++; params.push_back (json::Object {{"name", a.getName ().str ()}, {"t", typeId (a.getType ())}, {"byval", a.hasByValAttr ()}, {"sret", a.hasStructRetAttr ()}}); }
    o["nargs"] = n;
    if (DISubprogram * sp = F.getSubprogram ()) {
      o["line"] = (int64_t) sp->getLine ();
      o["file"] = fileId (sp->getDirectory (), sp->getFilename ());
      o["dname"] = sp->getName ().str ();
      auto arr = sp->getType ()->getTypeArray ();
      json::Array dt;
      for (unsigned i = 0; i < arr.size (); ++i) dt.push_back (ditype (arr[i]));
      o["ditypes"] = std::move (dt);
    }
    o["params"] = std::move (params);
    o["rt"] = typeId (F.getReturnType ());
    if (F.isDeclaration ()) { o["decl"] = true; return o; }
    std::map<const BasicBlock *, int> bid;
    int nb = 0;
    for (auto &B:F) {
      bid[&B] = nb++;
      for (auto &I:B) ids[&I] = n++;
    }
    json::Object vars;
    json::Array blocks;
    for (auto &B:F) {
      json::Object bo;
      json::Array ins;
      for (auto &I:B) {
        if (auto *dv = dyn_cast<DbgVariableIntrinsic> (&I)) {
          /* variable names: record value -> (name, type) */
          if (dv->getNumVariableLocationOps () == 1) {
            Value *v = dv->getVariableLocationOp (0);
            auto it = ids.find (v);
            if (it != ids.end () && dv->getExpression ()->getNumElements () == 0) {
              std::string key = std::to_string (it->second);
              auto *lv = dv->getVariable ();
              json::Object vo {{"n", lv->getName ().str ()}, {"t", ditype (lv->getType ())}, {"arg", (int64_t) lv->getArg ()}};
              if (vars.find (key) == vars.end ()) vars[key] = json::Array ();
              vars[key].getAsArray ()->push_back (std::move (vo));
            }
          }
          continue;
        }
        if (isa<DbgInfoIntrinsic> (&I)) continue;
        json::Object io;
        io["id"] = ids[&I];
        io["op"] = I.getOpcodeName ();
        io["t"] = typeId (I.getType ());
        if (auto d = dbgJson (I.getDebugLoc ()); d.getAsArray ()) io["d"] = std::move (d);
        if (auto *p = dyn_cast<PHINode> (&I)) {
          json::Array inc;
          for (unsigned i = 0; i < p->getNumIncomingValues (); ++i)
            inc.push_back (json::Array {opJson (p->getIncomingValue (i)), bid[p->getIncomingBlock (i)]});
          io["inc"] = std::move (inc);
          ins.push_back (std::move (io));
          continue;
        }
        if (auto *ge = dyn_cast<GetElementPtrInst> (&I)) {
          io["ops"] = json::Array {opJson (ge->getPointerOperand ())};
          io["gep"] = gepJson (cast<GEPOperator> (ge));
          ins.push_back (std::move (io));
          continue;
        }
        if (auto *ci = dyn_cast<CallBase> (&I)) {
          json::Array ops;
          for (auto &a:ci->args ()) ops.push_back (opJson (a.get ()));
          io["ops"] = std::move (ops);
          io["callee"] = opJson (ci->getCalledOperand ()->stripPointerCasts ());
          if (ci->doesNotReturn ()) io["noret"] = true;
          std::string bv;
          json::Array bva;
          for (unsigned i = 0; i < ci->arg_size (); ++i) if (ci->isByValArgument (i)) bva.push_back ((int64_t) i);
          if (!bva.empty ()) io["byval"] = std::move (bva);
          ins.push_back (std::move (io));
          continue;
        }
        if (auto *cmp = dyn_cast<CmpInst> (&I)) io["pred"] = CmpInst::getPredicateName (cmp->getPredicate ()).str ();
        if (auto *al = dyn_cast<AllocaInst> (&I)) { io["at"] = typeId (al->getAllocatedType ()); collectStruct (al->getAllocatedType ()); io["asz"] = (int64_t) DL.getTypeAllocSize (al->getAllocatedType ()); }
        if (auto *br = dyn_cast<BranchInst> (&I)) {
          if (br->isConditional ()) io["cond"] = opJson (br->getCondition ());
          json::Array su;
          for (unsigned k = 0; k < br->getNumSuccessors (); ++k) su.push_back (bid[br->getSuccessor (k)]);
          io["succ"] = std::move (su);
          ins.push_back (std::move (io));
          continue;
        }
        if (auto *sw = dyn_cast<SwitchInst> (&I)) {
          io["cond"] = opJson (sw->getCondition ());
          json::Array su, cs;
          su.push_back (bid[sw->getDefaultDest ()]);
          for (auto &c:sw->cases ()) { su.push_back (bid[c.getCaseSuccessor ()]); cs.push_back (c.getCaseValue ()->getSExtValue ()); }
          io["succ"] = std::move (su);
          io["cases"] = std::move (cs);
          ins.push_back (std::move (io));
          continue;
        }
        json::Array ops;
        for (auto &x:I.operands ()) ops.push_back (opJson (x.get ()));
        io["ops"] = std::move (ops);
        ins.push_back (std::move (io));
      }
      bo["i"] = std::move (ins);
      blocks.push_back (std::move (bo));
    }
    o["blocks"] = std::move (blocks);
    o["vars"] = std::move (vars);
    return o;
  }
};

int main (int argc, char **argv)
{
  if (argc < 3) { errs () << "usage: irdump in.bc out.json [inline-limit]\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile (argv[1], err, ctx);
  if (!M) { err.print (argv[0], errs ()); return 2; }
  int limit = argc > 3 ? atoi (argv[3]) : 0;

  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses (MAM); PB.registerCGSCCAnalyses (CGAM); PB.registerFunctionAnalyses (FAM);
  PB.registerLoopAnalyses (LAM); PB.crossRegisterProxies (LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  std::string pipe = "function(mem2reg)";
  if (limit > 0) {
    /* helper extraction must not matter: inline internal functions that are
     * not recursive and are only called directly */
    CallGraph CG (*M);
    std::set<Function *> rec;
    for (auto it = scc_begin (&CG); !it.isAtEnd (); ++it) {
      if (it.hasCycle ()) for (auto *n:*it) if (n->getFunction ()) rec.insert (n->getFunction ());
    }
    /* an odd limit leaves alone what allocates from a pool or gives back to it */
    auto pool = [&](Function & F) {
      if (!(limit & 1)) return false;
      if (F.getName ().starts_with ("sc_mempool_")) return true;
      for (auto &B:F) for (auto &I:B) if (auto *c = dyn_cast<CallBase> (&I)) if (auto *t = c->getCalledFunction ())
        if (t->getName () == "sc_mempool_alloc" || t->getName () == "sc_mempool_free") return true;
      return false;
    };
    for (auto &F:*M) {
      if (F.isDeclaration () || !F.hasLocalLinkage () || rec.count (&F) || pool (F)) continue;
      unsigned sz = 0;
      for (auto &B:F) for (auto &I:B) if (!isa<DbgInfoIntrinsic> (&I)) ++sz;
      unsigned calls = 0;
      for (auto *u:F.users ()) if (auto *c = dyn_cast<CallBase> (u)) if (c->getCalledOperand () == &F) ++calls;
      if (sz <= (unsigned) limit || calls == 1) {
        F.removeFnAttr (Attribute::NoInline);
        F.addFnAttr (Attribute::AlwaysInline);
      }
    }
    /* the inliner folds the address of a first member into the address of the
     * object; keep the member by hiding such addresses behind calls */
    std::vector<std::pair<Type *, SmallVector<Value *, 4>>> hidden;
    std::vector<Function *> hide;
    for (auto &F:*M) {
      if (F.isDeclaration () || !F.hasFnAttribute (Attribute::AlwaysInline)) continue;
      std::vector<GetElementPtrInst *> gs;
      for (auto &B:F) for (auto &I:B) if (auto *g = dyn_cast<GetElementPtrInst> (&I)) if (g->getNumIndices () > 1 && g->hasAllZeroIndices ()) gs.push_back (g);
      for (auto *g:gs) {
        auto *pt = g->getPointerOperandType ();
        auto *H = Function::Create (FunctionType::get (pt, {pt}, false), GlobalValue::ExternalLinkage, "__irdump_member." + std::to_string (hidden.size ()), *M);
        hidden.push_back ({g->getSourceElementType (), SmallVector<Value *, 4> (g->idx_begin (), g->idx_end ())});
        hide.push_back (H);
        auto *c = CallInst::Create (H, {g->getPointerOperand ()}, "", g);
        c->takeName (g);
        c->setDebugLoc (g->getDebugLoc ());
        g->replaceAllUsesWith (c);
        g->eraseFromParent ();
      }
    }
    ModulePassManager IPM;
    if (auto e = PB.parsePassPipeline (IPM, "always-inline")) { errs () << toString (std::move (e)) << "\n"; return 2; }
    IPM.run (*M, MAM);
    for (size_t k = 0; k < hide.size (); ++k) {
      while (!hide[k]->use_empty ()) {
        auto *c = cast<CallInst> (*hide[k]->user_begin ());
        auto *g = GetElementPtrInst::CreateInBounds (hidden[k].first, c->getArgOperand (0), hidden[k].second, "", c);
        g->takeName (c);
        g->setDebugLoc (c->getDebugLoc ());
        c->replaceAllUsesWith (g);
        c->eraseFromParent ();
      }
      hide[k]->eraseFromParent ();
    }
    MAM.clear ();
    FAM.clear ();
    CGAM.clear ();
  }
  for (auto &F:*M) F.removeFnAttr (Attribute::OptimizeNone);
  if (auto e = PB.parsePassPipeline (MPM, pipe)) { errs () << toString (std::move (e)) << "\n"; return 2; }
  MPM.run (*M, MAM);

  Dumper D (*M);
  D.buildComp ();
  for (auto *s:M->getIdentifiedStructTypes ()) D.collectStruct (s);
  for (auto &G:M->globals ()) D.collectStruct (G.getValueType ());
  D.propagateAnon ();
  json::Object out;
  json::Array fns;
  for (auto &F:*M) { if (F.isIntrinsic () && F.getName ().startswith ("llvm.dbg")) continue; fns.push_back (D.func (F)); }
  json::Array gl;
  for (auto &G:M->globals ()) {
    json::Object g;
    g["name"] = G.getName ().str ();
    g["internal"] = G.hasLocalLinkage ();
    g["const"] = G.isConstant ();
    g["decl"] = G.isDeclaration ();
    g["t"] = D.typeId (G.getValueType ());
    if (G.hasInitializer ()) g["init"] = D.constJson (G.getInitializer ());
    SmallVector<DIGlobalVariableExpression *, 1> gv;
    G.getDebugInfo (gv);
    if (!gv.empty ()) {
      auto *v = gv[0]->getVariable ();
      g["dname"] = v->getName ().str ();
      g["dt"] = ditype (v->getType ());
      g["line"] = (int64_t) v->getLine ();
      g["file"] = D.fileId (v->getDirectory (), v->getFilename ());
      if (auto *sc = v->getScope ()) { if (auto *ls = dyn_cast<DILocalScope> (sc)) g["fn"] = ls->getSubprogram ()->getName ().str (); }
    }
    gl.push_back (std::move (g));
  }
  out["functions"] = std::move (fns);
  out["globals"] = std::move (gl);
  out["structs"] = D.structsJson ();
  json::Array fv, tv;
  for (auto &f:D.filev) fv.push_back (f);
  for (auto &t:D.typev) tv.push_back (t);
  out["files"] = std::move (fv);
  out["types"] = std::move (tv);
  std::error_code ec;
  raw_fd_ostream os (argv[2], ec);
  if (ec) { errs () << ec.message () << "\n"; return 2; }
  os << json::Value (std::move (out));
  os.close ();
  return 0;
}
