// Client translation unit for C19: conditions of every kind of type usable as a condition.
#include <g3log/g3log.hpp>
namespace client {
   struct Thing; struct Booly { explicit operator bool() const; }; struct Inty { operator int() const; };
   enum Plain { pa, pb }; enum class Scoped { a };
   int side(int tag); bool condv(int tag); int condi(int tag); unsigned long condu(int tag); Thing* condp(int tag); Booly condb(int tag); Inty condn(int tag); Plain conde(int tag); double condd(int tag); signed char condc(int tag);
#define KIND(S, C) \
   void cCHECK##S() { CHECK(C(2)) << side(1); } \
   void cCHECKF##S() { CHECKF(C(2), "%d", side(1)); } \
   void cCHECK_F##S() { CHECK_F(C(2), "%d", side(1)); } \
   void cLOG_IF##S(const LEVELS& l) { LOG_IF(l, C(2)) << side(1); } \
   void cLOGF_IF##S(const LEVELS& l) { LOGF_IF(l, C(2), "%d", side(1)); }
   KIND(v, condv) KIND(i, condi) KIND(u, condu) KIND(p, condp) KIND(b, condb) KIND(n, condn) KIND(e, conde) KIND(c, condc)
   const std::string& text(int tag);
   void cLOG0(const LEVELS& l) { LOG(l); }
   void cLOGs(const LEVELS& l) { LOG(l) << text(1); }
   int cElseF(const LEVELS& l, bool a) { if (a) LOGF(l, "%d", side(1)); else return 7; return 3; }
   int cElseIfF(const LEVELS& l, bool a) { if (a) LOGF_IF(l, condv(2), "%d", side(1)); else return 7; return 3; }
   int cElseCF(bool a) { if (a) CHECKF(condv(2), "%d", side(1)); else return 7; return 3; }
   int cElseC_F(bool a) { if (a) CHECK_F(condv(2), "%d", side(1)); else return 7; return 3; }
}
