// The only translation unit of the harness that includes headers of the code
// under test; it is linked into the instrumented library.
#include "dyscostman.h"
#include <casacore/tables/DataMan/DataManager.h>
#include <dlfcn.h>
#include <map>
#include <casacore/casa/Containers/Record.h>
#include <casacore/casa/IO/AipsIO.h>

extern "C" casacore::DataManager *sut_make(int dataBits, int weightBits, const char *name, int dist, double param, int norm, int staticSeed, int viaSpec) {
  using namespace dyscostman;
  if (viaSpec) {
    casacore::Record spec;
    spec.define("dataBitCount", dataBits);
    spec.define("weightBitCount", weightBits);
    static const char *const d[] = {"Gaussian", "Uniform", "StudentsT", "TruncatedGaussian"};
    static const char *const n[] = {"AF", "RF", "Row"};
    spec.define("distribution", casacore::String(dist < 4 ? d[dist] : "Binomial"));
    spec.define("normalization", casacore::String(norm < 3 ? n[norm] : "Column"));
    if (dist == 2 || weightBits % 4) spec.define("studentTNu", dist == 2 ? param : 0.0);   // not given by older versions
    spec.define("distributionTruncation", dist == 3 ? param : 0.0);
    return new DyscoStMan(casacore::String(name), spec);
  }
  DyscoStMan *m = new DyscoStMan(dataBits, weightBits, name);
  switch (dist) {
    case 0: m->SetGaussianDistribution(); break;
    case 1: m->SetUniformDistribution(); break;
    case 2: m->SetStudentsTDistribution(param); break;
    case 3: m->SetTruncatedGaussianDistribution(param); break;
  }
  m->SetNormalization(norm == 0 ? Normalization::kAF : norm == 1 ? Normalization::kRF : Normalization::kRow);
  if (staticSeed) m->SetStaticSeed(true);
  return m;
}
// Casacore has its own, older copy of the storage manager and registerCtor()
// does not replace an entry: without this, tables that are opened would be
// handled by that copy instead of the code under test.
extern std::map<casacore::String, casacore::DataManagerCtor> casacoreRegisterMap asm("_ZN8casacore11DataManager16theirRegisterMapE");
extern "C" int sut_register() {
  casacoreRegisterMap.erase("DyscoStMan");
  register_dyscostman();
  auto i = casacoreRegisterMap.find("DyscoStMan");
  if (i == casacoreRegisterMap.end()) return 1;
  Dl_info x, y;
  const bool ours = dladdr((void *)i->second, &x) && dladdr((void *)&sut_register, &y) && x.dli_fbase == y.dli_fbase;
  return ours ? 0 : 2;
}
extern "C" void sut_sync(casacore::DataManager *m) {
  casacore::AipsIO unused;
  m->flush(unused, true);
}
// Casacore has removed the row from its other storage managers when one refuses,
// so the request is made to the storage manager alone (the function is private).
template <typename T, typename T::type F> struct Access { friend typename T::type get(T) { return F; } };
struct RemoveRow { typedef void (casacore::DataManager::*type)(casacore::rownr_t); friend type get(RemoveRow); };
template struct Access<RemoveRow, &casacore::DataManager::removeRow64>;
extern "C" void sut_removeRow(casacore::DataManager *m, uint64_t row) { (m->*get(RemoveRow()))(row); }
