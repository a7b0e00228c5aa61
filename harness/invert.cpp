#include "h.h"
using namespace AmpGen; using namespace H;
static Tensor T_(const std::string& n, unsigned d){ std::vector<Expression> e; for(unsigned i=0;i<d*d;++i) e.push_back(P(n+std::to_string(i))); return Tensor(e,{d,d}); }
static Tensor C_(const std::string& n, unsigned d){ std::vector<Expression> e; for(unsigned i=0;i<d*d;++i) e.push_back(P(n+std::to_string(i))+Constant(0,1)*P(n+"i"+std::to_string(i))); return Tensor(e,{d,d}); }
static int r_ = [](){ for(unsigned n=1;n<=9;++n){ H::cases().push_back({"inv"+std::to_string(n), [=](){ Tensor A=T_("A",n); out("I", A.Invert()); out("A", A); }});
   H::cases().push_back({"cinv"+std::to_string(n), [=](){ Tensor A=C_("A",n); out("I", A.Invert()); out("A", A); }});
   H::cases().push_back({"sinv"+std::to_string(n), [=](){ Tensor A=T_("A",n); if(n>1) A.imposeSymmetry(0,1); Tensor B(Tensor::dim(n,n)); for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) B(i,j)=A(i,j); out("I", B.Invert()); out("A", A); }});
   H::cases().push_back({"iinv"+std::to_string(n), [=](){ Tensor A=T_("A",n); if(n>1) A.imposeSymmetry(0,1); out("I", A.Invert()); Tensor B(Tensor::dim(n,n)); for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) B(i,j)=A(i,j); out("A", B); }});
   } return 0; }();
HMAIN
