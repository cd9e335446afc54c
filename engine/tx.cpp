// tx: typed extractor. Links LLVM bitcode produced from /repo sources, inlines
// repository helpers that are not in a rule's opaque vocabulary, promotes locals to
// SSA, and dumps the requested functions as JSON with debug-info names for fields,
// virtual slots and enumerators. No analysis is decided here.
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;

static string jesc(StringRef s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::map<string, string> demCache;
static string dem(StringRef n) {
  auto it = demCache.find(n.str());
  if (it != demCache.end()) return it->second;
  string d = llvm::demangle(n.str());
  demCache[n.str()] = d;
  return d;
}
static string qual(const DIScope *s) {
  string r;
  while (s) {
    if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
    StringRef n = s->getName();
    if (isa<DISubprogram>(s)) break;
    if (!n.empty()) r = r.empty() ? n.str() : n.str() + "::" + r;
    s = s->getScope();
  }
  return r;
}
static std::map<string, const DICompositeType *> byName;   // qualified name -> definition
static std::map<string, const DICompositeType *> byIdent;
static std::map<string, std::map<string, int64_t>> enums;
static const DIType *strip(const DIType *t) {
  while (t) {
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d) break;
    unsigned tag = d->getTag();
    if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type)
      t = d->getBaseType();
    else break;
  }
  return t;
}
static string memberPath(const DICompositeType *ct, uint64_t bitOff, int depth = 0) {
  if (!ct || depth > 6) return "";
  for (auto *e : ct->getElements()) {
    auto *d = dyn_cast_or_null<DIDerivedType>(e);
    if (!d) continue;
    if (d->isStaticMember()) continue;
    uint64_t o = d->getOffsetInBits();
    const DIType *bt = strip(d->getBaseType());
    uint64_t sz = d->getSizeInBits();
    if (!sz && bt) sz = bt->getSizeInBits();
    if (bitOff < o || (sz && bitOff >= o + sz) || (!sz && bitOff != o)) continue;
    if (d->getTag() == dwarf::DW_TAG_inheritance) {
      if (auto *b = dyn_cast_or_null<DICompositeType>(bt)) {
        string r = memberPath(b, bitOff - o, depth + 1);
        if (!r.empty()) return r;
        if (bitOff == o) return "";      // upcast
      }
      continue;
    }
    if (d->getTag() != dwarf::DW_TAG_member) continue;
    if (d->getName().empty()) {
      if (auto *b = dyn_cast_or_null<DICompositeType>(bt)) return memberPath(b, bitOff - o, depth + 1);
      continue;
    }
    if (bitOff == o) return d->getName().str();
    if (auto *b = dyn_cast_or_null<DICompositeType>(bt)) {
      if (b->getTag() == dwarf::DW_TAG_array_type) return d->getName().str() + "[]";
      string r = memberPath(b, bitOff - o, depth + 1);
      if (!r.empty()) return d->getName().str() + "." + r;
    }
    return d->getName().str();
  }
  return "";
}
static string structKey(StringRef n) {
  if (n.startswith("class.")) n = n.drop_front(6);
  else if (n.startswith("struct.")) n = n.drop_front(7);
  else if (n.startswith("union.")) n = n.drop_front(6);
  // strip numeric suffixes added by clang/linker, and ".base"
  while (true) {
    size_t p = n.rfind('.');
    if (p == StringRef::npos) break;
    StringRef suf = n.substr(p + 1);
    if (!suf.empty() && suf.find_first_not_of("0123456789") == StringRef::npos) n = n.take_front(p);
    else if (suf == "base") n = n.take_front(p);
    else break;
  }
  return n.str();
}
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static string typ(Type *t) {
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isPointerTy()) return "ptr";
  if (t->isDoubleTy()) return "double";
  if (t->isFloatTy()) return "float";
  if (t->isVoidTy()) return "void";
  if (auto *s = dyn_cast<StructType>(t)) return s->hasName() ? "S:" + structKey(s->getName()) : "S:?";
  if (auto *a = dyn_cast<ArrayType>(t)) return "A" + std::to_string(a->getNumElements()) + ":" + typ(a->getElementType());
  string r; raw_string_ostream os(r); t->print(os); return os.str();
}
static string val(const Value *v, int depth = 0);
static string esz(Type *t) { return t->isSized() ? std::to_string(DL->getTypeAllocSize(t)) : "0"; }
static string gepBody(const GEPOperator *g, int depth) {
  // emit list of steps: ["f",struct,field] | ["x",value,elemtype] | ["b",bytes]
  string r = "[";
  bool first = true;
  auto add = [&](string s) { if (!first) r += ","; first = false; r += s; };
  Type *cur = g->getSourceElementType();
  auto it = g->idx_begin();
  if (it == g->idx_end()) return "[]";
  // first index
  const Value *i0 = *it;
  if (auto *c = dyn_cast<ConstantInt>(i0)) {
    if (!c->isZero()) {
      if (cur->isIntegerTy(8)) add("[\"b\"," + std::to_string(c->getSExtValue()) + "]");
      else add("[\"x\"," + val(i0, depth + 1) + "," + jesc(typ(cur)) + "," + esz(cur) + "]");
    }
  } else add("[\"x\"," + val(i0, depth + 1) + "," + jesc(typ(cur)) + "," + esz(cur) + "]");
  for (++it; it != g->idx_end(); ++it) {
    if (auto *st = dyn_cast<StructType>(cur)) {
      unsigned k = cast<ConstantInt>(*it)->getZExtValue();
      uint64_t off = DL->getStructLayout(st)->getElementOffset(k);
      string key = st->hasName() ? structKey(st->getName()) : "";
      string f;
      auto bi = byName.find(key);
      if (bi != byName.end()) f = memberPath(bi->second, off * 8);
      Type *nt = st->getElementType(k);
      if (f.empty()) {
        // base-class subobject or unknown
        if (bi != byName.end() && isa<StructType>(nt)) { cur = nt; continue; }
        f = "#" + std::to_string(k);
      }
      add("[\"f\"," + jesc(key) + "," + jesc(f) + "]");
      cur = nt;
    } else if (auto *at = dyn_cast<ArrayType>(cur)) {
      cur = at->getElementType();
      const ConstantInt *c = dyn_cast<ConstantInt>(*it);
      if (c && c->isZero() && std::next(it) == g->idx_end()) { add("[\"d\"]"); continue; }
      add("[\"x\"," + val(*it, depth + 1) + "," + jesc(typ(cur)) + "," + esz(cur) + "]");
    } else break;
  }
  return r + "]";
}
static string val(const Value *v, int depth) {
  if (depth > 12) return "[\"u\"]";
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    if (c->getBitWidth() > 64) return "[\"c\",0,128]";
    return "[\"c\"," + std::to_string(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue()) + "," + std::to_string(c->getBitWidth()) + "]";
  }
  if (auto *c = dyn_cast<ConstantFP>(v)) {
    double d = c->getType()->isFloatTy() ? (double)c->getValueAPF().convertToFloat()
             : c->getType()->isDoubleTy() ? c->getValueAPF().convertToDouble() : 0.0;
    char b[64]; snprintf(b, sizeof b, "%.17g", d);
    return string("[\"f\",\"") + b + "\"]";
  }
  if (isa<ConstantPointerNull>(v)) return "[\"n\"]";
  if (isa<UndefValue>(v)) return "[\"u\"]";
  if (auto *a = dyn_cast<Argument>(v)) return "[\"a\"," + std::to_string(a->getArgNo()) + "]";
  if (auto *g = dyn_cast<GlobalVariable>(v)) {
    if (g->isConstant() && g->hasInitializer()) {
      if (auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer()))
        if (cd->isString()) { StringRef s = cd->getAsString(); if (s.endswith(StringRef("\0", 1))) s = s.drop_back(1);
          return "[\"s\"," + jesc(s) + "]"; }
      if (isa<ConstantAggregateZero>(g->getInitializer()) && g->getName().startswith(".str")) return "[\"s\",\"\"]";
    }
    return "[\"g\"," + jesc(dem(g->getName())) + "]";
  }
  if (auto *f = dyn_cast<Function>(v)) return "[\"fn\"," + jesc(dem(f->getName())) + "]";
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce))
      return "[\"cg\"," + val(g->getPointerOperand(), depth + 1) + "," + gepBody(g, depth + 1) + "]";
    string r = "[\"ce\"," + jesc(ce->getOpcodeName());
    for (auto &o : ce->operands()) r += "," + val(o.get(), depth + 1);
    return r + "]";
  }
  auto it = ids.find(v);
  if (it != ids.end()) return "[\"v\"," + std::to_string(it->second) + "]";
  return "[\"u\"]";
}
static std::map<string, int> fileIdx;
static std::vector<string> files;
static int fidx(StringRef dir, StringRef name) {
  string f = name.startswith("/") ? name.str() : dir.str() + "/" + name.str();
  auto it = fileIdx.find(f);
  if (it != fileIdx.end()) return it->second;
  int k = files.size(); files.push_back(f); fileIdx[f] = k; return k;
}
static bool repoFn(const Function &F, const string &repo) {
  auto *sp = F.getSubprogram();
  if (!sp || !sp->getFile()) return false;
  string f = sp->getFile()->getFilename().startswith("/") ? sp->getFile()->getFilename().str()
             : (sp->getFile()->getDirectory() + "/" + sp->getFile()->getFilename()).str();
  return StringRef(f).startswith(repo);
}
static bool isConstMethod(const string &d) { return StringRef(d).endswith(" const"); }

int main(int argc, char **argv) {
  string out, repo = "/repo/";
  std::vector<string> roots, opaques, inputs, inlineStd, devirt;
  bool doInline = true, all = false;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--repo") repo = argv[++i];
    else if (a == "--root") roots.push_back(argv[++i]);
    else if (a == "--opaque") opaques.push_back(argv[++i]);
    else if (a == "--no-inline") doInline = false;
    else if (a == "--inline-also") inlineStd.push_back(argv[++i]);
    else if (a == "--devirt") devirt.push_back(argv[++i]);
    else if (a == "--all") all = true;
    else inputs.push_back(a);
  }
  LLVMContext ctx;
  ctx.setDiscardValueNames(false);
  std::unique_ptr<Module> M;
  std::unique_ptr<Linker> L;
  for (auto &f : inputs) {
    SMDiagnostic err;
    auto m = parseIRFile(f, err, ctx);
    if (!m) { err.print("tx", errs()); return 3; }
    if (!M) { M = std::move(m); L = std::make_unique<Linker>(*M); continue; }
    if (L->linkInModule(std::move(m))) { errs() << "link failed: " << f << "\n"; return 3; }
  }
  if (!M) return 3;
  DL = &M->getDataLayout();
  // ---- debug-info type index
  DebugInfoFinder finder;
  finder.processModule(*M);
  for (auto *t : finder.types()) {
    if (auto *ct = dyn_cast<DICompositeType>(t)) {
      unsigned tag = ct->getTag();
      if (tag == dwarf::DW_TAG_enumeration_type) {
        string q = qual(ct);
        if (q.empty()) q = "<anon>";
        for (auto *e : ct->getElements())
          if (auto *en = dyn_cast<DIEnumerator>(e)) enums[q][en->getName().str()] = en->getValue().getSExtValue();
        continue;
      }
      if (ct->isForwardDecl()) continue;
      if (tag == dwarf::DW_TAG_class_type || tag == dwarf::DW_TAG_structure_type || tag == dwarf::DW_TAG_union_type) {
        if (!ct->getName().empty()) { string q = qual(ct); byName[q] = ct; }
        if (!ct->getIdentifier().empty()) byIdent[ct->getIdentifier().str()] = ct;
      }
    } else if (auto *dt = dyn_cast<DIDerivedType>(t)) {
      if (dt->getTag() == dwarf::DW_TAG_typedef)
        if (auto *b = dyn_cast_or_null<DICompositeType>(dt->getBaseType())) {
          if (b->getName().empty() && !b->isForwardDecl()) {
            if (b->getTag() == dwarf::DW_TAG_enumeration_type) {
              for (auto *e : b->getElements())
                if (auto *en = dyn_cast<DIEnumerator>(e)) enums[dt->getName().str()][en->getName().str()] = en->getValue().getSExtValue();
            } else byName.insert({qual(dt), b});
          } else if (b->getTag() == dwarf::DW_TAG_enumeration_type) {
              for (auto *e : b->getElements())
                if (auto *en = dyn_cast<DIEnumerator>(e)) enums[dt->getName().str()][en->getName().str()] = en->getValue().getSExtValue();
          }
        }
    }
  }
  auto matchAny = [](const std::vector<string> &rs, const string &s) {
    for (auto &r : rs) { Regex re(r); if (re.match(s)) return true; }
    return false;
  };
  std::set<string> defined;
  // ---- keep first-member accesses visible (a zero-offset GEP would be folded away)
  std::map<Function *, std::pair<string, string>> f0;
  std::map<string, Function *> f0by;
  DL = &M->getDataLayout();
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::vector<GetElementPtrInst *> todo;
    for (auto &B : F) for (auto &I : B) if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      if (!g->hasAllZeroIndices() || g->getNumIndices() != 2) continue;
      if (isa<StructType>(g->getSourceElementType())) todo.push_back(g);
    }
    for (auto *g : todo) {
      auto *st = cast<StructType>(g->getSourceElementType());
      string key = st->hasName() ? structKey(st->getName()) : "";
      auto bi = byName.find(key);
      if (bi == byName.end()) continue;
      string f = memberPath(bi->second, 0);
      if (f.empty()) continue;
      string nm = "vk.f0|" + key + "|" + f;
      Function *&mf = f0by[nm];
      if (!mf) {
        auto *pt = PointerType::get(ctx, 0);
        mf = Function::Create(FunctionType::get(pt, {pt}, false), GlobalValue::ExternalLinkage, nm, *M);
        mf->setDoesNotThrow(); mf->setDoesNotAccessMemory(); mf->setWillReturn();
        f0[mf] = {key, f};
      }
      auto *ci = CallInst::Create(mf, {g->getPointerOperand()}, "", g);
      ci->setDebugLoc(g->getDebugLoc());
      ci->takeName(g);
      g->replaceAllUsesWith(ci);
      g->eraseFromParent();
    }
  }
  // ---- virtual calls on classes that are taken to have no overriding classes
  if (!devirt.empty()) {
    std::map<string, std::map<int, string>> vt;
    auto slotsOf = [&](const string &cn) -> std::map<int, string> & {
      auto f = vt.find(cn);
      if (f != vt.end()) return f->second;
      auto &slots = vt[cn];
      auto it = byName.find(cn);
      if (it == byName.end()) return slots;
      std::vector<const DICompositeType *> work{it->second};
      std::set<const DICompositeType *> seen;
      while (!work.empty()) {
        auto *c = work.back(); work.pop_back();
        if (!c || !seen.insert(c).second) continue;
        for (auto *e : c->getElements()) {
          if (auto *s = dyn_cast_or_null<DISubprogram>(e)) {
            if (s->getVirtuality() != 0 && !s->getName().starts_with("~")) slots.insert({(int)s->getVirtualIndex(), s->getLinkageName().str()});
          } else if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) {
            if (d->getTag() == dwarf::DW_TAG_inheritance && d->getOffsetInBits() == 0)
              if (auto *b = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()))) work.push_back(b);
          }
        }
      }
      return slots;
    };
    for (auto &F : *M) for (auto &B : F) for (auto &I : B) {
      auto *cb = dyn_cast<CallBase>(&I);
      if (!cb || cb->getCalledFunction()) continue;
      auto *ld = dyn_cast<LoadInst>(cb->getCalledOperand());
      if (!ld) continue;
      const Value *p = ld->getPointerOperand();
      int64_t slot = 0;
      if (auto *g = dyn_cast<GetElementPtrInst>(p)) {
        if (g->getNumIndices() == 1) if (auto *ci = dyn_cast<ConstantInt>(g->getOperand(1))) slot = ci->getSExtValue();
        p = g->getPointerOperand();
      }
      if (!isa<LoadInst>(p)) continue;
      for (auto *u : p->users())
        if (auto *tt = dyn_cast<IntrinsicInst>(u))
          if (tt->getIntrinsicID() == Intrinsic::type_test || tt->getIntrinsicID() == Intrinsic::public_type_test)
            if (auto *mv = dyn_cast<MetadataAsValue>(tt->getArgOperand(1)))
              if (auto *ms = dyn_cast<MDString>(mv->getMetadata())) {
                string cn = dem(ms->getString());
                const char *pre = "typeinfo name for ";
                if (StringRef(cn).starts_with(pre)) cn = cn.substr(strlen(pre));
                // an entry "pattern=class" also fixes the class of the object
                string as;
                for (auto &d : devirt) {
                  auto q = d.find('=');
                  if (!matchAny({d.substr(0, q)}, cn)) continue;
                  as = q == string::npos ? cn : d.substr(q + 1);
                  break;
                }
                if (as.empty()) continue;
                auto &sl = slotsOf(as);
                auto k = sl.find((int)slot);
                if (k == sl.end()) continue;
                if (auto *t = M->getFunction(k->second)) { cb->setCalledOperand(t); break; }
              }
    }
  }
  // ---- inlining + SSA
  std::set<Function *> rootFns;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    string d = dem(F.getName());
    bool isRepo = repoFn(F, repo);
    if (isRepo) defined.insert(d);
    bool root = (all ? isRepo : matchAny(roots, d)) && !(d.find("::$_") != string::npos && doInline);
    if (root) rootFns.insert(&F);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    bool lambda = d.find("::$_") != string::npos || d.find("'lambda") != string::npos;
    bool inl = doInline && ((isRepo && (lambda || !matchAny(opaques, d))) || (!isRepo && (matchAny(inlineStd, d) || d.find(" std::vk_") != string::npos || d.compare(0, 8, "std::vk_") == 0 || (lambda && d.find("std::") == string::npos))));
    if (inl) F.addFnAttr(Attribute::AlwaysInline);
    else F.addFnAttr(Attribute::NoInline);
    if (root) F.setLinkage(GlobalValue::ExternalLinkage);
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    string pipe = doInline ? "always-inline,function(sroa,instsimplify,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>)"
                           : "function(sroa,instsimplify)";
    if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return 3; }
    MPM.run(*M, MAM);
  }
  std::error_code ec;
  raw_fd_ostream os(out.empty() ? "-" : out, ec);
  os << "{\"functions\":[\n";
  bool ff = true;
  std::set<string> usedTypeIds;
  for (auto &F : *M) {
    if (!rootFns.count(&F) || F.isDeclaration()) continue;
    auto *sp = F.getSubprogram();
    if (!ff) os << ",\n";
    ff = false;
    ids.clear();
    int n = 0;
    std::map<const BasicBlock *, int> bid;
    int bn = 0;
    for (auto &B : F) { bid[&B] = bn++; for (auto &I : B) ids[&I] = n++; }
    os << "{\"name\":" << jesc(dem(F.getName())) << ",\"mangled\":" << jesc(F.getName());
    if (sp && sp->getFile()) os << ",\"file\":" << fidx(sp->getFile()->getDirectory(), sp->getFile()->getFilename()) << ",\"line\":" << sp->getLine();
    os << ",\"linkage\":" << (F.hasLocalLinkage() ? 1 : 0);
    os << ",\"ret\":" << jesc(typ(F.getReturnType()));
    os << ",\"args\":[";
    for (auto &A : F.args()) { if (A.getArgNo()) os << ","; 
      string nm = A.getName().str(); if (A.hasStructRetAttr()) nm = "!sret"; else if (A.hasByValAttr()) nm = "!byval:" + nm;
      os << "[" << jesc(nm) << "," << jesc(typ(A.getType())) << "]"; }
    os << "],\"blocks\":[";
    bool fb = true;
    for (auto &B : F) {
      if (!fb) os << ",";
      fb = false;
      os << "\n [";
      bool fi = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
          auto id = ii->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::type_test ||
              id == Intrinsic::public_type_test || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue;
        }
        if (!fi) os << ",";
        fi = false;
        string s = "{\"i\":" + std::to_string(ids[&I]) + ",\"o\":" + jesc(I.getOpcodeName()) + ",\"t\":" + jesc(typ(I.getType()));
        if (auto &dl = I.getDebugLoc()) {
          s += ",\"l\":" + std::to_string(dl.getLine());
          if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) if (sc->getFile())
            s += ",\"f\":" + std::to_string(fidx(sc->getFile()->getDirectory(), sc->getFile()->getFilename()));
          if (dl.getInlinedAt()) {
            s += ",\"ia\":1";
          }
        }
        if (auto *c0 = dyn_cast<CallInst>(&I)) if (auto *mf = c0->getCalledFunction()) {
          auto fi0 = f0.find(mf);
          if (fi0 != f0.end()) {
            os << "\n  {\"i\":" << ids[&I] << ",\"o\":\"getelementptr\",\"t\":\"ptr\",\"ops\":[" << val(c0->getArgOperand(0)) << "],\"gep\":[[\"f\","
               << jesc(fi0->second.first) << "," << jesc(fi0->second.second) << "]]}";
            continue;
          }
        }
        if (auto *c = dyn_cast<CallBase>(&I)) {
          s += ",\"args\":[";
          for (unsigned k = 0; k < c->arg_size(); k++) { if (k) s += ","; s += val(c->getArgOperand(k)); }
          s += "]";
          string attrs;
          if (c->arg_size() && c->paramHasAttr(0, Attribute::StructRet)) s += ",\"sret\":0";
          else if (c->arg_size() > 1 && c->paramHasAttr(1, Attribute::StructRet)) s += ",\"sret\":1";
          if (c->doesNotReturn()) s += ",\"nr\":1";
          if (auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases())) {
            s += ",\"callee\":" + jesc(dem(cf->getName()));
            s += ",\"cm\":" + jesc(cf->getName());
            if (cf->doesNotReturn() && s.find("\"nr\":1") == string::npos) s += ",\"nr\":1";
            s += string(",\"cdef\":") + (cf->isDeclaration() ? "0" : "1");
            s += string(",\"crepo\":") + (repoFn(*cf, repo) ? "1" : "0");
          } else {
            const Value *cv = c->getCalledOperand();
            s += ",\"ind\":" + val(cv);
            // virtual call?
            if (auto *ld = dyn_cast<LoadInst>(cv)) {
              const Value *p = ld->getPointerOperand();
              int64_t slot = 0;
              if (auto *g = dyn_cast<GetElementPtrInst>(p)) {
                if (g->getNumIndices() == 1) if (auto *ci = dyn_cast<ConstantInt>(g->getOperand(1))) slot = ci->getSExtValue();
                p = g->getPointerOperand();
              }
              if (isa<LoadInst>(p)) {
                for (auto *u : p->users())
                  if (auto *tt = dyn_cast<IntrinsicInst>(u))
                    if (tt->getIntrinsicID() == Intrinsic::type_test || tt->getIntrinsicID() == Intrinsic::public_type_test)
                      if (auto *mv = dyn_cast<MetadataAsValue>(tt->getArgOperand(1)))
                        if (auto *ms = dyn_cast<MDString>(mv->getMetadata())) {
                          s += ",\"virt\":[" + jesc(ms->getString()) + "," + std::to_string(slot) + "]";
                          usedTypeIds.insert(ms->getString().str());
                          goto donev;
                        }
              }
              donev:;
            }
          }
          if (auto *iv = dyn_cast<InvokeInst>(&I))
            s += ",\"nd\":" + std::to_string(bid[iv->getNormalDest()]) + ",\"ud\":" + std::to_string(bid[iv->getUnwindDest()]);
        } else if (auto *b = dyn_cast<BranchInst>(&I)) {
          if (b->isConditional()) s += ",\"cond\":" + val(b->getCondition()) + ",\"succ\":[" + std::to_string(bid[b->getSuccessor(0)]) + "," + std::to_string(bid[b->getSuccessor(1)]) + "]";
          else s += ",\"succ\":[" + std::to_string(bid[b->getSuccessor(0)]) + "]";
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          s += ",\"cond\":" + val(sw->getCondition()) + ",\"def\":" + std::to_string(bid[sw->getDefaultDest()]) + ",\"cases\":[";
          bool fc = true;
          for (auto &cs : sw->cases()) { if (!fc) s += ","; fc = false; s += "[" + std::to_string(cs.getCaseValue()->getSExtValue()) + "," + std::to_string(bid[cs.getCaseSuccessor()]) + "]"; }
          s += "]";
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          s += ",\"in\":[";
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { if (k) s += ","; s += "[" + val(p->getIncomingValue(k)) + "," + std::to_string(bid[p->getIncomingBlock(k)]) + "]"; }
          s += "]";
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          s += ",\"ops\":[" + val(g->getPointerOperand()) + "],\"gep\":" + gepBody(cast<GEPOperator>(g), 0);
        } else if (auto *cmp = dyn_cast<CmpInst>(&I)) {
          s += ",\"p\":" + jesc(CmpInst::getPredicateName(cmp->getPredicate())) + ",\"ot\":" + jesc(typ(cmp->getOperand(0)->getType()));
          s += ",\"ops\":[" + val(cmp->getOperand(0)) + "," + val(cmp->getOperand(1)) + "]";
        } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
          s += ",\"at\":" + jesc(typ(al->getAllocatedType()));
          if (auto *ci = dyn_cast<ConstantInt>(al->getArraySize())) { if (ci->getZExtValue() != 1) s += ",\"n\":" + std::to_string(ci->getZExtValue()); }
          else s += ",\"vla\":" + val(al->getArraySize());
          s += ",\"nm\":" + jesc(al->getName());
          Type *one = al->getAllocatedType();
          while (auto *st = dyn_cast<StructType>(one)) { if (st->isOpaque() || st->getNumElements() != 1) break; one = st->getElementType(0); }
          if (al->getAllocatedType()->isStructTy() && one->isPointerTy()) s += ",\"one\":1";
        } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
          s += ",\"clauses\":[";
          for (unsigned k = 0; k < lp->getNumClauses(); k++) { if (k) s += ","; s += val(lp->getClause(k)); }
          s += string("],\"cleanup\":") + (lp->isCleanup() ? "1" : "0");
        } else {
          s += ",\"ops\":[";
          for (unsigned k = 0; k < I.getNumOperands(); k++) { if (k) s += ","; s += val(I.getOperand(k)); }
          s += "]";
          if (auto *ld = dyn_cast<LoadInst>(&I)) { (void)ld; }
          if (auto *st = dyn_cast<StoreInst>(&I)) s += ",\"ot\":" + jesc(typ(st->getValueOperand()->getType()));
          if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&I)) if (!bo->hasNoSignedWrap() && !bo->hasNoUnsignedWrap()) s += ",\"uw\":1";
          if (auto *ca = dyn_cast<CastInst>(&I)) s += ",\"ot\":" + jesc(typ(ca->getSrcTy()));
          if (isa<ExtractValueInst>(&I)) { s += ",\"idx\":["; bool f1 = true; for (auto k : cast<ExtractValueInst>(&I)->indices()) { if (!f1) s += ","; f1 = false; s += std::to_string(k); } s += "]"; }
          if (isa<InsertValueInst>(&I)) { s += ",\"idx\":["; bool f1 = true; for (auto k : cast<InsertValueInst>(&I)->indices()) { if (!f1) s += ","; f1 = false; s += std::to_string(k); } s += "]"; }
        }
        s += "}";
        os << "\n  " << s;
      }
      os << "]";
    }
    os << "]}";
  }
  os << "],\n\"files\":[";
  for (size_t i = 0; i < files.size(); i++) os << (i ? "," : "") << jesc(files[i]);
  os << "],\n\"defined\":[";
  { bool f1 = true; for (auto &d : defined) { os << (f1 ? "" : ",") << jesc(d); f1 = false; } }
  os << "],\n\"enums\":{";
  { bool f1 = true;
    for (auto &e : enums) { if (e.first.find("std::") == 0 || e.first.find("__") == 0) continue;
      os << (f1 ? "" : ",\n") << jesc(e.first) << ":{"; f1 = false;
      bool f2 = true; for (auto &k : e.second) { os << (f2 ? "" : ",") << jesc(k.first) << ":" << k.second; f2 = false; } os << "}"; } }
  os << "},\n\"vslots\":{";
  { bool f1 = true;
    for (auto &id : usedTypeIds) {
      string cn = dem(id);
      const char *pre = "typeinfo name for ";
      if (StringRef(cn).startswith(pre)) cn = cn.substr(strlen(pre));
      auto it = byName.find(cn);
      if (it == byName.end()) continue;
      std::map<int, string> slots;
      std::vector<const DICompositeType *> work{it->second};
      std::set<const DICompositeType *> seen;
      while (!work.empty()) {
        auto *c = work.back(); work.pop_back();
        if (!c || !seen.insert(c).second) continue;
        for (auto *e : c->getElements()) {
          if (auto *s = dyn_cast_or_null<DISubprogram>(e)) {
            if (s->getVirtuality() != 0) {
              int vi = s->getVirtualIndex();
              string nm = s->getName().str();
              if (nm[0] == '~') { slots.insert({vi, qual(c) + "::" + nm}); slots.insert({vi + 1, qual(c) + "::" + nm}); }
              else slots.insert({vi, qual(c) + "::" + nm});
            }
          } else if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) {
            if (d->getTag() == dwarf::DW_TAG_inheritance && d->getOffsetInBits() == 0)
              if (auto *b = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()))) work.push_back(b);
          }
        }
      }
      os << (f1 ? "" : ",\n") << jesc(id) << ":{"; f1 = false;
      bool f2 = true;
      for (auto &s : slots) { os << (f2 ? "" : ",") << "\"" << s.first << "\":" << jesc(s.second); f2 = false; }
      os << "}";
    } }
  os << "},\n\"classes\":{";
  { bool f1 = true;
    for (auto &kv : byName) {
      if (kv.first.find("std::") == 0 || kv.first.find("__") == 0 || kv.first.find("_") == 0) continue;
      auto *ct = kv.second;
      os << (f1 ? "" : ",\n") << jesc(kv.first) << ":{\"size\":" << ct->getSizeInBits() / 8 << ",\"bases\":["; f1 = false;
      bool f2 = true;
      for (auto *e : ct->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e))
        if (d->getTag() == dwarf::DW_TAG_inheritance) if (auto *b = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()))) { os << (f2 ? "" : ",") << jesc(qual(b)); f2 = false; }
      os << "],\"fields\":{";
      f2 = true;
      for (auto *e : ct->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e))
        if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember() && !d->getName().empty()) {
          const DIType *bt = strip(d->getBaseType());
          string tn;
          if (bt) { 
            int ptr = 0; const DIType *q = bt;
            while (q && isa<DIDerivedType>(q) && (cast<DIDerivedType>(q)->getTag() == dwarf::DW_TAG_pointer_type || cast<DIDerivedType>(q)->getTag() == dwarf::DW_TAG_reference_type)) { ptr++; q = strip(cast<DIDerivedType>(q)->getBaseType()); }
            if (auto *c2 = dyn_cast_or_null<DICompositeType>(q)) tn = c2->getTag() == dwarf::DW_TAG_array_type ? "array:" + std::to_string(c2->getSizeInBits() / 8) : qual(c2);
            else if (q) tn = q->getName().str(); else tn = "void";
            for (int k = 0; k < ptr; k++) tn += "*";
          }
          os << (f2 ? "" : ",") << jesc(d->getName()) << ":" << jesc(tn); f2 = false;
        }
      os << "}}";
    } }
  os << "}}\n";
  (void)isConstMethod;
  return 0;
}
