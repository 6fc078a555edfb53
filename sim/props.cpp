#include "harness.h"
namespace hz {
#define PROPS(X) X(T01) X(T02) X(T03) X(R01) X(C01) X(C02) X(C03) X(C04) X(C05) X(S01) X(S02) X(P01) X(B01) X(D01) X(D02) X(A01) X(O01) X(O02) X(O03) X(O04) X(F01) X(F02)
#define DECL(x) extern Prop prop##x;
#define REF(x) prop##x,
PROPS(DECL)
const std::vector<Prop>& props() {
    static std::vector<Prop> p = {PROPS(REF)};
    return p;
}
}  // namespace hz
