From d546d01af02322b54f18978c9b168e9b71891c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 01/68] fix: empty TransformSequence has the 2x2 identity in
 the spinor representation

---
 src/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transform.cpp b/src/Transform.cpp
index 812a6be..7149fbd 100644
--- a/src/Transform.cpp
+++ b/src/Transform.cpp
@@ -115,7 +115,7 @@ void TransformSequence::buildCache()
   {
    if( m_transforms.size() == 0 ){
      if( repr == Transform::Representation::Spinor ) m_cache[repr] = Identity(2);
-     m_cache[repr] = Identity(4);
+     else m_cache[repr] = Identity(4);
    }
    else { 
     Tensor::Index a,b,c;
-- 
2.43.0


From 1be8a18ffc5ee96245021970b8911b049a145726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:23 +0000
Subject: [PATCH 02/68] fix: TensorProxy product with a fully contracted
 (rank-0) operand indexed empty coordinate vectors

---
 src/Tensor.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 56690c0..ed0771d 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -418,22 +418,20 @@ TensorProxy AmpGen::operator*( const TensorProxy& t1, const TensorProxy& t2 )
     auto coords = Tensor::index_to_coordinates( elem, finalTensorRank );
     std::vector<unsigned> t1_coords( t1_size, 0 );
     std::vector<unsigned> t2_coords( t2_size, 0 );
-    unsigned i = 0;
     unsigned j = 0;
-    do {
+    for( unsigned i = 0; i < t1_size; ++i ) {
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.i == i ;} )){
         t1_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t1_size );
-    i = 0;
+    }
     j = t1_size - contractions.size();
-    do {
+    for( unsigned i = 0; i < t2_size; ++i ) {
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.j == i ;} )){
         t2_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t2_size );
+    }
     
     Expression elementExpression = 0;
     for( unsigned m=0; m<nElementsInSum; ++m) {
-- 
2.43.0


From 3b0da1be3f9c1157ea9247bdacc6dc69543f0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 03/68] fix: sum of indexed tensors kept the imposed symmetry
 of the left operand and lost the rest of the right operand

---
 src/Tensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index ed0771d..85a00ce 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -496,13 +496,13 @@ TensorProxy AmpGen::operator+( const TensorProxy& t1, const TensorProxy& t2 )
     ERROR("Mapping illformed!" << indices_t1.size() << " " << indices_t2.size());
     return TensorProxy( Tensor(), {} );
   }
-  Tensor result( tensor_t1 );
+  Tensor result( tensor_t1.dims() );
 
-  for ( auto& i : tensor_t1.uniqueElements() ) {
+  for ( unsigned i = 0; i < tensor_t1.nElements(); ++i ) {
     auto t1_coords = tensor_t1.coords( i );
     auto t2_coords = std::vector<unsigned>( t1_coords.size(), 0 );
     for( unsigned int j=0;j<t1_coords.size(); ++j ) t2_coords[ j ] = t1_coords[t1_to_t2_mapping[j]];
-    result[i] = result[i] + tensor_t2[t2_coords];
+    result[i] = tensor_t1[i] + tensor_t2[t2_coords];
   }
   return TensorProxy( result, indices_t1 );
 }
-- 
2.43.0


From 081ca17132a6223759bdc7460132d9b7d0c02d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 04/68] fix: TensorProxy::reorder permutes the dimensions along
 with the indices

---
 src/Tensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 85a00ce..0dd229e 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -578,10 +578,12 @@ TensorProxy TensorProxy::reorder( const std::vector<Tensor::Index>& indices )
       if( m_indices[j] == indices[i] ) mapping[j] = i;
     }
   }
-  Tensor reordered( m_tensor.dims() ); 
+  std::vector<unsigned> reordered_dims( m_indices.size() );
+  for(unsigned z = 0 ; z < m_indices.size(); ++z ) reordered_dims[mapping[z]] = m_tensor.dims()[z];
+  Tensor reordered( reordered_dims ); 
   for(unsigned i = 0 ; i < m_tensor.size(); ++i)
   { 
-    auto coordinates       = Tensor::index_to_coordinates(i,m_tensor.dims() );
+    auto coordinates       = Tensor::index_to_coordinates(i, reordered_dims );
     std::vector<unsigned> new_coordinates( m_indices.size() );
     for(unsigned z = 0 ; z < m_indices.size(); ++z )
       new_coordinates[z] = coordinates[mapping[z]];
-- 
2.43.0


From ff4cfeac7f934bb3bde4f05b45c6bfa890902eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 05/68] fix: chiral fermion-scalar vertices contracted the
 scalar instead of the spinor (out-of-range access)

---
 src/FermionVertices.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index e6b25cf..79b833d 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -84,14 +84,14 @@ DEFINE_VERTEX( f_Vf_SR )
 DEFINE_VERTEX( f_fS_SL )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( f_fS_SR )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( f_fS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
@@ -260,14 +260,14 @@ DEFINE_VERTEX( F_VF_SR )
 DEFINE_VERTEX( F_FS_SL )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( F_FS_SR )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
-- 
2.43.0


From 15615d6358666c34bc14ec13bdb0ee65a8b5e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 06/68] fix: antifermion vertices F_FS_S1 and F_VF_D1 projected
 onto fermion states

---
 src/FermionVertices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 79b833d..3306625 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -270,7 +270,7 @@ DEFINE_VERTEX( F_FS_SR )
   return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
-DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
+DEFINE_VERTEX( F_FS_S1 ){ return Spin1hbProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
 
 DEFINE_VERTEX( F_FS_P1 )
 {
@@ -304,7 +304,7 @@ DEFINE_VERTEX( F_VF_P3 ) //A5
 
 DEFINE_VERTEX( F_VF_D1 )
 {
-  Tensor proj   = Spin1hProjector(P);
+  Tensor proj   = Spin1hbProjector(P);
   Tensor gt     = gamma_twiddle(P);
   Tensor L      = Orbital_DWave(P,Q)(-mu,-nu) * V1(nu); 
   return proj( a, b ) * gt(mu,b,c) * L(-mu) * V2(c) ;
-- 
2.43.0


From 1c9cb7c5388bbe12b599b56f33ca127e2db7e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 07/68] fix: vertices with a scalar decay product ignored the
 spin factor of the scalar

---
 src/FermionVertices.cpp | 12 ++++++------
 src/Vertex.cpp          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 3306625..fd08f5c 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -28,7 +28,7 @@ DEFINE_VERTEX( f_fS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -140,7 +140,7 @@ DEFINE_VERTEX( r_fS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -153,7 +153,7 @@ DEFINE_VERTEX( r_fS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
@@ -204,7 +204,7 @@ DEFINE_VERTEX( F_FS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -316,7 +316,7 @@ DEFINE_VERTEX( R_FS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hbProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -329,7 +329,7 @@ DEFINE_VERTEX( R_FS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index e6ce10f..b1f09a0 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -295,7 +295,7 @@ DEFINE_VERTEX( V_TS_D )
 {
   Tensor L        = ( -1 ) * Orbital_PWave( P, Q );
   Tensor coupling = LeviCivita()( -mu, -nu, -alpha, -beta ) * P( nu ) * Q( alpha );
-  return coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha );
+  return ( coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha ) ) * V2[0];
 }
 
 DEFINE_VERTEX( S_fF_S ) { return Bar(V2)(a) * V1(a); }
-- 
2.43.0


From fbb56ed6cd7a988f87d1edf38b90724a258a95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:58 +0000
Subject: [PATCH 08/68] fix: helicity polarisation states of particles moving
 along -z had the wrong helicity

---
 src/Particle.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index e6e71b7..c5eb5a5 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -556,8 +556,10 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       Expression invP   = make_cse(Ternary( pP            > 1e-6, 1./pP,0));
       Expression pZoverP = make_cse(Ternary( pP > 1e-6, pZ/pP, 1) );
       Expression f = (pP-pZ)*invPT2;
-      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverP - 1i*z *pX*f*invP, z*invP           , 0.  }); 
-      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverP - 1i*zb*pX*f*invP,-zb*invP          , 0.  });
+      // limit of z*pX*f/pP for zero azimuthal angle when the momentum is along the z-axis 
+      Expression limit = Ternary( pX*pX + pY*pY > 1e-6, 0, 1 - pZoverP );
+      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverP - 1i*(z *pX*f*invP + limit), z*invP           , 0.  }); 
+      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverP - 1i*(zb*pX*f*invP + limit),-zb*invP          , 0.  });
       if(polState ==  0) return     Tensor({pX*pE*invP/m    , pY*pE*invP/m       , pZoverP*pE/m, pP/m}); 
     }
     if( m_spinBasis == spinBasis::Dirac ){
@@ -574,8 +576,9 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       std::array<Tensor,2> xi;
       Expression aligned = make_cse( fcn::abs(pP + pZ) < 1e-6 ) ;
       Expression n       = 1/fcn::sqrt( 2 * pP*(pP+pZ) );
-      xi[0] = Tensor( { Ternary( aligned, 1, n * ( pP + pZ ) )      , Ternary( aligned, 0, n * ( pX + 1i * pY) ) } );
-      xi[1] = Tensor( { Ternary( aligned, 0, n * ( -pX + 1i * pY )) , Ternary( aligned, 1, n * ( pP + pZ ) ) } );
+      Expression flip    = make_cse( Ternary( pZ < 0, 1, 0 ) ); // momentum along -z, as opposed to at rest 
+      xi[0] = Tensor( { Ternary( aligned, 1 - flip, n * ( pP + pZ ) ) , Ternary( aligned, flip    , n * ( pX + 1i * pY) ) } );
+      xi[1] = Tensor( { Ternary( aligned, -flip, n * ( -pX + 1i * pY )), Ternary( aligned, 1 - flip, n * ( pP + pZ ) ) } );
       Expression N = make_cse( fcn::sqrt((pE+m)/(2*m) ));
       Expression k = pP * polState / ( pE + m );
       int ind = polState == +1 ? 0 : 1;
-- 
2.43.0


From fbbe7af51f76cab433dea14a1b7e9af039ffc65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:05 +0000
Subject: [PATCH 09/68] fix: [P08] Tensor::Invert overwrote shared elements of
 tensors with imposed symmetry

---
 src/Tensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 0dd229e..f45928f 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -263,7 +263,8 @@ Tensor Tensor::Invert() const
   int actualsize = m_dim[0];
   if ( rank() != 2 ) ERROR("Inversion only implemented for rank 2 objects");
   
-  Tensor data = *this;
+  Tensor data( m_dim ); // independent elements, even if this tensor is stored as symmetric
+  for ( unsigned i = 0; i < size(); ++i ) data[i] = get( i );
 
   for ( int i = 1; i < actualsize; i++ ) data[i] = data[i] / data[0]; // normalize row 0
   for ( int i = 1; i < actualsize; i++ ) {
-- 
2.43.0


From 20b8d93cf52d66de8ab1126f625f053431dba64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:24 +0000
Subject: [PATCH 10/68] fix: [P15] L=4 relative Blatt-Weisskopf factor mixed z
 and z0 in its numerator

---
 src/Lineshapes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes.cpp b/src/Lineshapes.cpp
index 7406c7d..6f99a01 100644
--- a/src/Lineshapes.cpp
+++ b/src/Lineshapes.cpp
@@ -32,7 +32,7 @@ Expression AmpGen::BlattWeisskopf_Norm( const Expression& ze, const Expression&
     case 1: return (1+z0) / (1+z);
     case 2: return (z0*z0 + 3*z0 + 9 ) / (z*z + 3*z + 9);
     case 3: return (z0*fpow(z0-15,2) + 9*fpow( 2*z0 -5,2 ) ) / (z*fpow(z-15,2) + 9*fpow( 2*z -5,2 ) );
-    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z*fpow(2*z-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
+    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z0*fpow(2*z0-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
     default : 
       ERROR("Barrier factors not for implemented for L>4");
       return 0;
-- 
2.43.0


From 4b0bdcd52c4a8bb1f87e9dbda0feeb9d5241699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:24 +0000
Subject: [PATCH 11/68] fix: [P15] L=2 barrier factor of the Chew-Mandelstam
 phase space had 3z*9 for 3z+9

---
 src/Lineshapes/CoupledChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes/CoupledChannel.cpp b/src/Lineshapes/CoupledChannel.cpp
index a052762..bc63708 100644
--- a/src/Lineshapes/CoupledChannel.cpp
+++ b/src/Lineshapes/CoupledChannel.cpp
@@ -100,7 +100,7 @@ namespace {
   {
     if constexpr( L == 0 )      return expression_type(1);
     else if constexpr( L == 1 ) return expression_type( 2 * z / ( 1 + z )  ); 
-    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z * 9 ) ); 
+    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z + 9 ) ); 
     else if constexpr( L == 3 ) return expression_type( 277  * z * z * z  / (z*(z-15)*(z-15) + 9* ( 2 * z - 5 ) * (2*z-5 ) ) );  
     else {
       std::cout << "error, blatt weisskopf not implemented for L> 3 (if you are trying to calculate dispersive corrections in such a case, good luck to ya" << std::endl; 
-- 
2.43.0


From 23c6ceab6959f50d43c143312f4f673cb8eae4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:27 +0000
Subject: [PATCH 12/68] fix: [P16] non-resonant part of the K-matrix P-vector
 was accumulated once per pole

---
 src/Lineshapes/GenericKmatrix.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Lineshapes/GenericKmatrix.cpp b/src/Lineshapes/GenericKmatrix.cpp
index 08f0391..5bea14c 100644
--- a/src/Lineshapes/GenericKmatrix.cpp
+++ b/src/Lineshapes/GenericKmatrix.cpp
@@ -130,12 +130,11 @@ DEFINE_GENERIC_SHAPE(GenericKmatrix)
     for(unsigned k = 0 ; k < nChannels; ++k){
       for(unsigned alpha = 0; alpha < nPoles; ++alpha){
         Expression beta = 0;
-        for(unsigned q = 0 ; q < nChannels; ++q){
-          beta += a[q] * poleConfigs[alpha].couplings[q];
-          phi[k] += a[q] * non_resonant[{k,q}];
-        }
-        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s) + phi[k] * (1.+s_0)/(s-s_0);
+        for(unsigned q = 0 ; q < nChannels; ++q) beta += a[q] * poleConfigs[alpha].couplings[q];
+        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s);
       }
+      for(unsigned q = 0 ; q < nChannels; ++q) phi[k] += a[q] * non_resonant[{k,q}];
+      P[k] += phi[k] * (1.+s_0)/(s-s_0);
       F_0 += propagator[{0,k}] * P[k];
     }
     //TODO: implement higher orbital angular momentum
-- 
2.43.0


From 835fa0720b18e1f2da7a0ae362ab86b90ae5bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:00 +0000
Subject: [PATCH 13/68] fix: tree evaluation of Fmod (always 0) and LGamma
 (used |x|) to match the generated code

---
 src/BinaryExpression.cpp | 2 +-
 src/UnaryExpression.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BinaryExpression.cpp b/src/BinaryExpression.cpp
index 5fee9f1..e41dcf0 100644
--- a/src/BinaryExpression.cpp
+++ b/src/BinaryExpression.cpp
@@ -37,7 +37,7 @@ complex_t LessThan::operator()()    const { return complex_t(std::real(lval()) <
 complex_t GreaterThanEqualTo::operator()() const { return complex_t(std::real(lval()) >= std::real(rval()) ,0); }
 complex_t LessThanEqualTo::operator()()    const { return complex_t(std::real(lval()) <= std::real(rval()) ,0); }
 complex_t Pow::operator()()         const { return pow( lval(), rval() ); }
-complex_t Fmod::operator()()        const { return 0; }
+complex_t Fmod::operator()()        const { return std::fmod( std::real(lval()), std::real(rval()) ); }
 complex_t Equal::operator()()       const { return lval() == rval() ; } 
 complex_t Or::operator()()          const { return std::real(lval()) || std::real(rval()) ; }
 complex_t ATan2::operator()()       const { return atan2( std::real(lval() ), std::real(rval() ) ); }
diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index 3b09b3a..dc45236 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -32,7 +32,7 @@ DEFINE_UNARY_OPERATOR_NO_RESOLVER( Abs , std::abs )
 
 LGamma::LGamma( const Expression& expression) : IUnaryExpression(expression) {} 
 LGamma::operator Expression() const { return Expression( std::make_shared<LGamma>(*this) ) ; }
-complex_t LGamma::operator()() const { return std::lgamma( std::abs( m_expression() ) ); }
+complex_t LGamma::operator()() const { return std::lgamma( std::real( m_expression() ) ); }
 std::string LGamma::to_string(const ASTResolver* resolver) const {   
   return "std::lgamma(" + m_expression.to_string(resolver) + ")"; 
 }
-- 
2.43.0


From dfeed4f2bef2a891a674dcb98847b37b703a5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:00 +0000
Subject: [PATCH 14/68] fix: signs of the ASin and ACos derivatives were
 interchanged

---
 src/UnaryExpression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index dc45236..754adc4 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -85,8 +85,8 @@ Expression Sin::d()  const { return   fcn::cos(arg()) ; }
 
 Expression Tan::d()  const { return 1. / ( fcn::cos(arg()) * fcn::cos(arg()) );}
 
-Expression ACos::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ); }
-Expression ASin::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ) ; }
+Expression ACos::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ); }
+Expression ASin::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ) ; }
 Expression ATan::d() const { return 1 / ( 1 + arg()*arg() ); }
 
 Expression ISqrt::d() const { return -1./ ( 2 * Pow( arg() , 1.5 ) ); }
-- 
2.43.0


From d852f83ca91dbcfc63f4895b7d1eb6b520e262e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 15/68] fix: print expression constants so that they read back
 to the same value (was 6 digits)

---
 src/Expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index aa11146..00ce9cf 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -1,5 +1,6 @@
 #include <memory.h>
 #include <cmath>
+#include <cstdlib>
 #include <complex>
 #include <iosfwd>
 #include <limits>
@@ -56,6 +57,8 @@ bool isZero( const complex_t& A ){
 std::string Constant::to_string(const ASTResolver* resolver) const {  
   auto rounded_string = [](const double& val ){
     std::string str = mysprintf("%g", val);
+    for( int precision = 7; precision <= 17 && std::strtod( str.c_str(), nullptr ) != val ; ++precision ) 
+      str = mysprintf("%.*g", precision, val); /// shortest representation that reads back to the same value
     return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
   };
   std::string complex_type = type_string<complex_t>();
-- 
2.43.0


From 21fe457b513cdae46ae36300f93709619378d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 16/68] fix: resolve the arguments of Function expressions,
 whose parameters were left out of the generated code

---
 src/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index 00ce9cf..950ad62 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -248,7 +248,7 @@ std::string Function::to_string(const ASTResolver* resolver) const {
   for( auto& arg : m_args ) rt += arg.to_string(resolver) + ", ";
   return rt.substr(0,rt.size()-2) + ")";
 }
-void Function::resolve( ASTResolver& resolver ) const {}
+void Function::resolve( ASTResolver& resolver ) const { for( auto& arg : m_args ) arg.resolve( resolver ); }
 
 std::string SubTree::to_string(const ASTResolver* /*resolver*/) const 
 {
-- 
2.43.0


From c557385a5c621a7fc1d9c0d0df7cd59c86aeef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:36 +0000
Subject: [PATCH 17/68] fix: Simplify dropped factors that are binary functions
 (pow, fmod, comparisons) or bracketed sums

---
 src/Simplify.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/Simplify.cpp b/src/Simplify.cpp
index b39c5b6..be9d6ff 100644
--- a/src/Simplify.cpp
+++ b/src/Simplify.cpp
@@ -12,20 +12,13 @@
 using namespace AmpGen;
 
 void NormalOrderedExpression::Term::addExpression( const Expression& expression){
-  if( is<IBinaryExpression>(expression) ){
-    auto argAsBin = dynamic_cast<IBinaryExpression*>(expression.get());
-    auto l = argAsBin->l(); 
-    auto r = argAsBin->r(); 
-    if( is<Product>(expression) ){
-      addExpression(l);
-      addExpression(r);
-    }
-    if( is<Sum>(expression) || is<Sub>(expression) ) 
-      ERROR("I never should get here, brackets should be pre-expanded [" << expression << "] " );
-    if( is<Divide>(expression) ){
-      addExpression( l );
-      m_divisor = m_divisor * r ;  
-    }
+  if( is<Product>(expression) ){
+    addExpression( cast<Product>(expression).l() );
+    addExpression( cast<Product>(expression).r() );
+  }
+  else if( is<Divide>(expression) ){
+    addExpression( cast<Divide>(expression).l() );
+    m_divisor = m_divisor * cast<Divide>(expression).r();
   }
   else if( is<Constant>(expression) ) m_prefactor *= expression();
   else m_terms.emplace_back( expression, expression.to_string() );
-- 
2.43.0


From 6c4d01a0b8eafb43321fb17c47653f97112d369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:51 +0000
Subject: [PATCH 18/68] fix: identify common sub-expressions by a 64-bit hash,
 32-bit keys made distinct sub-expressions share a value

---
 src/Expression.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index 950ad62..70d578c 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -232,9 +232,20 @@ void Ternary::resolve( ASTResolver& resolver ) const
   m_v2.resolve( resolver );
 }
 
+/// 64-bit FNV-1a: sub-trees are identified by this key alone, 32 bits collide for realistic numbers of sub-trees
+static uint64_t subtree_key( const std::string& toHash )
+{
+  uint64_t hash = 14695981039346656037ULL;
+  for ( auto& c : toHash ) {
+    hash ^= static_cast<unsigned char>(c);
+    hash *= 1099511628211ULL;
+  }
+  return hash;
+}
+
 SubTree::SubTree( const Expression& other ) : 
   m_expression( other ),
-  m_key( FNV1a_hash(m_expression.to_string() ) ) {}
+  m_key( subtree_key(m_expression.to_string() ) ) {}
 
 Function::Function( const std::string& name, const std::vector<Expression>& args ) :
   m_name(name),
@@ -266,7 +277,7 @@ Expression AmpGen::make_cse( const Expression& A , bool simplify )
   SubTree cse = SubTree(A);
   if( !simplify ) return Expression(cse);
   auto ordered = Expression( NormalOrderedExpression(A) );
-  cse.setKey( FNV1a_hash(ordered.to_string()) );
+  cse.setKey( subtree_key(ordered.to_string()) );
   return Expression(cse);
 }
 
-- 
2.43.0


From db8b17f369c957956d81d75616449f053bced1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:58 +0000
Subject: [PATCH 19/68] fix: [P03] compile-time constant parameters were
 written with 6 decimals (and without brackets) in the generated code

---
 src/ASTResolver.cpp      | 4 ++--
 src/ExpressionParser.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ASTResolver.cpp b/src/ASTResolver.cpp
index 7dcdfc0..5bec3f4 100644
--- a/src/ASTResolver.cpp
+++ b/src/ASTResolver.cpp
@@ -113,7 +113,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     auto it = m_mps->find(parameter.name());
     if( it != nullptr ){
       if( m_enable_compileTimeConstants && it->flag() == Flag::CompileTimeConstant ){
-        addResolvedParameter( &parameter, "("+std::to_string(it->mean()) +")" );
+        addResolvedParameter( &parameter, Constant(it->mean()).to_string() );
       }
       else addResolvedParameter( &parameter, addCacheFunction<ParameterTransfer>( parameter.name(), it )  );
       return;
@@ -121,7 +121,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     DEBUG("Could not find parameter: " << parameter.name() << " amongst the MPS ");
   }
   else if( m_enable_compileTimeConstants ){
-    addResolvedParameter( &parameter, std::to_string( parameter.defaultValue() ) );
+    addResolvedParameter( &parameter, Constant( parameter.defaultValue() ).to_string() );
     return;
   }
   auto address = addCacheFunction<CacheTransfer>( parameter.name(), parameter.defaultValue() );
diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 49edf95..ce5da39 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -246,7 +246,7 @@ std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-    return std::to_string( m_parameter->mean() ); 
+    return Constant( m_parameter->mean() ).to_string(); 
   return resolver->resolvedParameter(this);
 
 }
-- 
2.43.0


From 003ea0272ec38a36b3067a2c74569c13288a3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:58 +0000
Subject: [PATCH 20/68] fix: [P03] parameters defined by an expression were
 inserted into the generated code without brackets

---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index ce5da39..cca13c7 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -242,7 +242,7 @@ MinuitParameterLink::MinuitParameterLink( MinuitParameter* param ) : m_parameter
 std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
-  if( as_expression != nullptr ) return as_expression->expression().to_string(resolver);
+  if( as_expression != nullptr ) return "(" + as_expression->expression().to_string(resolver) + ")";
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-- 
2.43.0


From 93c02a12bafcc1cdc248fae77f36e8784d0e8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:58 +0000
Subject: [PATCH 21/68] fix: [P03] links to CompileTimeConstant parameters were
 left out of the generated code when compile-time constants are disabled

---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index cca13c7..b5780a5 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -259,7 +259,7 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
   if( as_expression != nullptr ) return as_expression->expression().resolve(resolver);
-  if( m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
+  if( !resolver.enableCompileConstants() || m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
 }
 
 complex_t MinuitParameterLink::operator()() const 
-- 
2.43.0


From 376555743ece51a7682a1dd25276e02aa0477a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:58 +0000
Subject: [PATCH 22/68] fix: [P03] entry points with built-in parameters
 rounded them to 6 decimals and did not compile for functions with several
 outputs

---
 src/CompiledExpressionBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index fd4ed52..1a84c06 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -229,6 +229,6 @@ void CompiledExpressionBase::compileWithParameters( std::ostream& stream ) const
   tl.erase(tl.begin() + ( use_rto() ? 2 : 0 ) ); 
   stream << "extern \"C\" " << returnTypename() << " " << progName() << "_wParams" << "(" << fcnSignature(tl) << " ){" << std::endl;
   auto buf = externBuffer(); 
-  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return std::to_string(line); }) ) <<"};\n" ;
-  stream << "  return " << progName() << "( externalParameters, x0 ); \n}\n";
+  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return mysprintf("%.17g", line); }) ) <<"};\n" ;
+  stream << "  return " << progName() << ( use_rto() ? "( r, s, externalParameters, x0 ); \n}\n" : "( externalParameters, x0 ); \n}\n" );
 }
-- 
2.43.0


From d0fd2beb57dd883d01b0718e6a8cb0d56984789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 23/68] fix: [P18] the spin of fermions was printed as 0/2,
 1/2, 2/2 ...

---
 src/ParticleProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index 4558301..d0fd652 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -53,7 +53,7 @@ std::string ParticleProperties::J() const
 {
   if( m_twoSpin == -1 ) return "?";
   if( m_twoSpin % 2 == 0 ) return std::to_string( int(m_twoSpin/2) );
-  if( m_twoSpin % 2 == 1 ) return std::to_string( int(m_twoSpin/2) ) + "/2";
+  if( m_twoSpin % 2 == 1 ) return std::to_string( m_twoSpin ) + "/2";
   return "";
 }
 
-- 
2.43.0


From 8ff0711f1331efa56ce2e00e895c97fca862dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 24/68] fix: [P18] particles defined by the user had an
 indeterminate antiparticle flag

---
 AmpGen/ParticleProperties.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ParticleProperties.h b/AmpGen/ParticleProperties.h
index 9e1a9ad..8f35a8a 100644
--- a/AmpGen/ParticleProperties.h
+++ b/AmpGen/ParticleProperties.h
@@ -98,7 +98,7 @@ namespace AmpGen
       std::string m_name{""};            ///< particle name
       std::string m_texName{""};         ///< latex label of particle
       std::string m_chargeString{""};    ///< string for particle charge
-      char m_Aformat;                    ///< anti-particle format character
+      char m_Aformat{' '};               ///< anti-particle format character
       char m_status;                     ///< status (estalished or not etc)
       QuarkContent m_quarkContent;       ///< The quark content of the state (uD, uud etc.)
       bool m_isValid;                    ///< Flag to check whether the ParticleProperties have configured correctly 
-- 
2.43.0


From 981b63106d35df80c25196ff7f7d89ef0b067a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 25/68] fix: [P18] conjugating a particle without PDG id
 returned an unrelated particle

---
 src/Particle.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index c5eb5a5..8ff729f 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -30,6 +30,16 @@
 using namespace AmpGen;
 using namespace std::complex_literals; 
 
+namespace {
+  /// antiparticle of a particle in the table; particles without a PDG id are identified by name
+  const ParticleProperties* antiparticle( const ParticleProperties* p )
+  {
+    if( !p->hasDistinctAnti() ) return p; 
+    auto anti = p->pdgID() != 0 ? ParticlePropertiesList::get( -p->pdgID() ) : ParticlePropertiesList::get( p->anti().name() );
+    return anti == nullptr ? p : anti;
+  }
+}
+
 Particle::Particle() = default; 
 
 Particle::Particle( const std::string& name, const Particle& p1, const Particle& p2 ) :
@@ -685,8 +695,7 @@ void Particle::sortDaughters()
 
 void Particle::conjThis()
 {
-  if( m_props->hasDistinctAnti() ) 
-    m_props = ParticlePropertiesList::get( -m_props->pdgID(), false);
+  m_props = antiparticle(m_props);
   for(unsigned i = 0 ; i != m_daughters.size(); ++i) m_daughters[i]->conjThis(); 
 }
 
@@ -694,7 +703,7 @@ Particle Particle::conj( bool invertHead , bool reorder )
 {
   Particle cp(*this);
   cp.clearDecayProducts();
-  const ParticleProperties* p = ( !isHead() || invertHead ) && m_props->hasDistinctAnti() ? ParticlePropertiesList::get( -m_props->pdgID() ) : m_props;
+  const ParticleProperties* p = !isHead() || invertHead ? antiparticle(m_props) : m_props;
   cp.setName( p->name() );
   for( auto& d : m_daughters ) cp.addDaughter( std::make_shared<Particle>(d->conj(invertHead,reorder)) );
   if( reorder ) cp.sortDaughters();
-- 
2.43.0


From 63a1a00d941581b0a24d66fb66bcc025f0bff940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 26/68] fix: [P17] the decay descriptor of a decay with a named
 vertex lost its orbital angular momentum

---
 src/Particle.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 8ff729f..1d1dbf6 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -40,6 +40,20 @@ namespace {
   }
 }
 
+namespace {
+  /// spectroscopic notation of the orbital angular momentum and spin configuration
+  std::string waveString( unsigned orbital, unsigned spinConfiguration )
+  {
+    constexpr std::array<char, 7> orbitals = {'S','P','D','F','G','H','I'};
+    std::string rt = std::string(1, orbital < orbitals.size() ? orbitals[orbital] : '?' ); 
+    if( spinConfiguration != 0 ){ 
+      if( spinConfiguration < 10 ) rt += std::to_string( spinConfiguration );
+      else rt += char(spinConfiguration-10);
+    }
+    return rt; 
+  }
+}
+
 Particle::Particle() = default; 
 
 Particle::Particle( const std::string& name, const Particle& p1, const Particle& p2 ) :
@@ -291,14 +305,7 @@ std::shared_ptr<Particle> Particle::daughter( const std::string& name, const int
 
 std::string Particle::orbitalString() const
 {
-  if( m_vertexName != "" ) return m_vertexName; 
-  constexpr std::array<char, 7> orbitals = {'S','P','D','F','G','H','I'};
-  std::string rt = std::string(1, orbitals[m_orbital] ); 
-  if( m_spinConfigurationNumber != 0 ){ 
-    if( m_spinConfigurationNumber < 10 ) rt += std::to_string( m_spinConfigurationNumber  );
-    else rt += char(m_spinConfigurationNumber-10);
-  }
-  return rt; 
+  return m_vertexName != "" ? m_vertexName : waveString( m_orbital, m_spinConfigurationNumber ); 
 }
 
 bool Particle::hasModifier( const std::string& modifier ) const
@@ -312,7 +319,7 @@ std::string Particle::modifierString() const
   auto append = [&modString](const std::string& toAppend){ 
     modString += ( modString == "[" ? toAppend : ";" +toAppend );
   };
-  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( orbitalString() );
+  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( waveString( m_orbital, m_spinConfigurationNumber ) );
   if ( !m_usesDefaultLineshape ) append( m_lineshape );
   std::vector<std::string> otherModifiers = {"BgSpin0", "Inco", "NoSym"};
   for ( auto& mod : otherModifiers ) if ( hasModifier( mod ) ) append(mod) ;
-- 
2.43.0


From 6d89184cecdc2ea5c57d8e50284b3cabb4ebf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 27/68] fix: [P17] a decay descriptor naming an unknown
 particle crashed instead of giving an invalid decay

---
 src/Particle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 1d1dbf6..82233e8 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -120,6 +120,11 @@ Particle::Particle( const std::string& decayString, const std::vector<std::strin
     (*m_daughters.rbegin())->setParent(this);
   }
   m_props = ParticlePropertiesList::get( m_name );
+  if ( m_props == nullptr || std::any_of( m_daughters.begin(), m_daughters.end(), [](const auto& d){ return !d->isStateGood(); } ) ) {
+    ERROR( "Amplitude " << decayString << " not configured correctly" );
+    m_isStateGood = false;
+    return;
+  }
   pdgLookup();
   auto fs = getFinalStateParticles( false );
   DEBUG( "Building particle from decay string = " << decayString << " name = " << m_name << " "<< m_props->name() );
-- 
2.43.0


From 9de9cc7823214595c5b165a81fc3f05338c4e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 28/68] fix: [P17] decays with more final state particles than
 the event type were accepted as matching it

---
 src/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 82233e8..40ba02f 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -144,7 +144,8 @@ Particle::Particle( const std::string& decayString, const std::vector<std::strin
     ERROR( "Amplitude " << decayString << " not configured correctly" );
   }
 //  if ( finalStates.size() == fs.size() ) {
-  m_isStateGood = std::all_of(hasUsedFinalState.begin(), hasUsedFinalState.end(), [](const auto& b){return b;} );
+  m_isStateGood &= std::all_of(hasUsedFinalState.begin(), hasUsedFinalState.end(), [](const auto& b){return b;} );
+  if ( finalStates.size() != 0 ) m_isStateGood &= finalStates.size() == fs.size(); 
 //  }
   m_uniqueString = makeUniqueString();
 }
-- 
2.43.0


From 21d5a0f3f329aab7e1a7306a05a317ced7bd4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 29/68] fix: [P17] particles constructed from a name and an
 index had no name

---
 src/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 40ba02f..7f96c06 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -91,7 +91,8 @@ Particle::Particle(const std::string& name, const std::vector<Particle>& particl
 
 
 Particle::Particle( const std::string& name, const unsigned int& index ) :
-  m_props{ParticlePropertiesList::get( name )}
+  m_name{name}
+  , m_props{ParticlePropertiesList::get( name )}
   , m_index{index}
 {
   pdgLookup();
-- 
2.43.0


From 065cf6919227dc7e2b992c4f43369d252a8f872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 30/68] fix: [P20] cyclic permutations of three identical
 fermions had the wrong exchange parity

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1b1948a..482395a 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -508,7 +508,7 @@ std::pair<size_t,int> AmpGen::minSwaps(const std::vector<size_t>& indices, const
       cycle_size++; 
     } 
     if( cycle_size > 0 ){
-      netExchangeParity *= exchangeParities[i]; 
+      if( (cycle_size - 1) % 2 == 1 ) netExchangeParity *= exchangeParities[i]; 
       ans += (cycle_size - 1); 
     }
   } 
-- 
2.43.0


From c82c0206aacc9e93cf13c489368120bb536bc3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 31/68] fix: [P19] decays that cannot conserve angular momentum
 were given spin-orbit couplings

---
 src/Particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 7f96c06..4805d78 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -635,6 +635,8 @@ std::pair<size_t, size_t> Particle::orbitalRange( const bool& conserveParity ) c
   const int s1 = daughter(0)->props()->twoSpin();
   const int s2 = daughter(1)->props()->twoSpin();
     
+  if( S >= 0 && s1 >= 0 && s2 >= 0 && ( S + s1 + s2 ) % 2 != 0 ) return {999, 999}; 
+
   int min_s12 = std::abs( s1 - s2 );
   int max_s12 = std::abs( s1 + s2 );
           
-- 
2.43.0


From f79992ae89b959ba8b2f8453d2fc40029f2cd096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:49 +0000
Subject: [PATCH 32/68] fix: [P28] expanding a decay rule replaced the names of
 all equal (or similarly named) particles at once, losing cross terms and
 couplings

---
 src/AmplitudeRules.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index ca0bec6..27a0ea7 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -214,14 +214,14 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Co
     for(const auto& [particle, coupling] : rt )
     {
       if(!canExpand(particle)){ newTmpParticles.emplace_back(particle, coupling);  continue; }
-      std::string nameToExpand = particle.uniqueString();
       auto fs                  = particle.getFinalStateParticles();
       auto it                  = *std::find_if( fs.begin(), fs.end(), canDecay );
       auto expandedRules       = rulesForDecay( it->name() );
       for ( auto& subTree : expandedRules )
       {
-        auto expanded_amplitude = replaceAll( nameToExpand, it->name(), subTree.name() );
-        newTmpParticles.emplace_back( Particle( expanded_amplitude), TotalCoupling( coupling, subTree) );
+        auto expanded_amplitude = particle.clone();
+        expanded_amplitude.expand( subTree.particle() );
+        newTmpParticles.emplace_back( Particle( expanded_amplitude.makeUniqueString() ), TotalCoupling( coupling, subTree) );
       }
     }
     rt = newTmpParticles;
-- 
2.43.0


From 5ce7736315cbca128520ba0d9ffb4092430f1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:12 +0000
Subject: [PATCH 33/68] fix: [P20] symmetrising over identical particles with
 spin exchanged their momenta but not their polarisation states

---
 src/Particle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 4805d78..eadd56d 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -459,6 +459,8 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
   std::vector<int> exchangeParities;
   std::transform(fsp.begin(), fsp.end(), std::back_inserter(exchangeParities), 
       [](const auto& p){ return p->props()->isFermion() ? -1 : 1; } );
+  std::vector<int> polStates;
+  for( const auto& p : fsp ) polStates.push_back( p->polState() );
   std::map< std::vector<size_t>, Expression> props; 
   for( const auto& ordering : orderings ){
     setOrdering( ordering );
@@ -467,6 +469,7 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
   for(const auto& ordering : orderings){
     auto exchangeParity = minSwaps( ordering, exchangeParities );   
     setOrdering( ordering );
+    for( unsigned i = 0 ; i != fsp.size(); ++i ) fsp[i]->m_polState = polStates[ordering[i]];
     Expression spinFactor = 1; 
     if( includeSpin && m_spinFormalism == spinFormalism::Covariant ){
       Tensor st = spinTensor(db);
@@ -506,6 +509,7 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
     else              total = total + fcn::conj(ls) * ls;
     if(!doSymmetrisation) break;
   }
+  for( unsigned i = 0 ; i != fsp.size(); ++i ) fsp[i]->m_polState = polStates[i];
   ADD_DEBUG( total, db );
   double nPermutations = doSymmetrisation ? orderings.size() : 1;
   if ( sumAmplitudes )
-- 
2.43.0


From c11045404d47ed9ffab93278e15e7b3c1c4c53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:12 +0000
Subject: [PATCH 34/68] fix: [P20] evaluating an amplitude left the decay tree
 with the momenta of its identical particles exchanged

---
 src/Particle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index eadd56d..ee6f3c4 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -510,6 +510,7 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
     if(!doSymmetrisation) break;
   }
   for( unsigned i = 0 ; i != fsp.size(); ++i ) fsp[i]->m_polState = polStates[i];
+  setOrdering( orderings.front() );
   ADD_DEBUG( total, db );
   double nPermutations = doSymmetrisation ? orderings.size() : 1;
   if ( sumAmplitudes )
-- 
2.43.0


From 2f2770d248eff8323c64579c0270008fad0e9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:10 +0000
Subject: [PATCH 35/68] fix: [P29] adding CP-conjugate couplings crashed on
 couplings with a prefix and on parameters that only look like couplings

---
 src/AddCPConjugate.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index c6ec1b3..f6b837d 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -49,7 +49,9 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
     std::string new_name = ""; 
     int sgn=1;
     if ( reOrIm == "Re" || reOrIm == "Im" ){
-      auto test_particle = Particle(pname);
+      const std::string prefix = tokens.size() == 3 ? tokens[0] + "_" : "";
+      auto test_particle = Particle( tokens.size() == 3 ? tokens[1] : pname);
+      if( ! test_particle.isStateGood() ) continue; 
       //DEBUG( test_particle.name() << "->" << test_particle ); 
       if( std::count( forbidden.begin(), forbidden.end(), test_particle.name() ) != 0 ){
         //DEBUG("Skipping: " << test_particle ); 
@@ -59,7 +61,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       if( ! test.props()->hasDistinctAnti() ) continue; 
       if( cartOrPolar == "polar" )     sgn = reOrIm == "Re" ? test.CP() : 1; 
       if( cartOrPolar == "cartesian" ) sgn = test.CP();
-      new_name = test.uniqueString() +"_"+reOrIm;
+      new_name = prefix + test.uniqueString() +"_"+reOrIm;
     }
     else if( tokens.size() == 2 ) {
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
-- 
2.43.0


From d96a426f96ae40a1a822479f8d8662f6751adc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:10 +0000
Subject: [PATCH 36/68] fix: [P29] adding CP-conjugate couplings added a
 nameless parameter for every parameter that is not a coupling

---
 src/AddCPConjugate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index f6b837d..3a3e167 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -67,6 +67,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
       if( props != 0  ) new_name = props->anti().name() + "_" + tokens[1]; 
     }
+    if( new_name == "" ) continue; 
     tmp.push_back( new MinuitExpression(new_name, sgn * MinuitParameterLink(param) )) ;  
   }
   for( auto& p : tmp ){
-- 
2.43.0


From 3bd0ec827d414b4bccb727e30d075794f97d2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:21 +0000
Subject: [PATCH 37/68] fix: [P29] the C parity of decays through C eigenstates
 that decay into further C eigenstates was counted twice, giving their CP
 conjugates the wrong sign

---
 src/Particle.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index ee6f3c4..d690453 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -919,7 +919,13 @@ int Particle::C() const
 {
   if( m_daughters.size() == 1 ) return m_daughters[0]->C();
   int prod = 1;
-  for( auto& d : m_daughters ) prod *= ( d->props()->C() == 0 ? 1 : d->props()->C() ) * d->C();
+  for( auto& d : m_daughters ){
+    /// the decay of a C eigenstate into anything but a particle-antiparticle pair carries the C of its products
+    bool isPair = d->m_daughters.size() == 2 && d->daughter(0)->props()->hasDistinctAnti() 
+               && d->daughter(0)->props()->pdgID() == -d->daughter(1)->props()->pdgID();
+    bool useC   = d->props()->C() != 0 && ( d->m_daughters.size() != 2 || isPair ); 
+    prod *= ( useC ? d->props()->C() : 1 ) * d->C();
+  }
   return prod; 
 }
 
-- 
2.43.0


From 9cdb5e312fb034a614ffc28515783f240f4c4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:25 +0000
Subject: [PATCH 38/68] fix: [P29] adding CP-conjugate couplings duplicated
 couplings whose conjugates were already given, when their decays were not
 written in the standard order

---
 src/AddCPConjugate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index 3a3e167..8ac0e19 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -1,3 +1,4 @@
+#include <set>
 #include <string>
 #include <vector>
 
@@ -15,6 +16,7 @@ using namespace AmpGen;
 void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
 {
   std::vector<MinuitParameter*> tmp;
+  std::set<std::string> existing; // names of the couplings, with the particles of each decay in the standard order  
   std::string cartOrPolar = NamedParameter<std::string>("CouplingConstant::Coordinates" ,"cartesian");
   std::vector<std::string> forbidden = NamedParameter<std::string>("AddCPConjugate::Forbid").getVector();  
 
@@ -52,6 +54,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       const std::string prefix = tokens.size() == 3 ? tokens[0] + "_" : "";
       auto test_particle = Particle( tokens.size() == 3 ? tokens[1] : pname);
       if( ! test_particle.isStateGood() ) continue; 
+      existing.insert( prefix + test_particle.uniqueString() + "_" + reOrIm ); 
       //DEBUG( test_particle.name() << "->" << test_particle ); 
       if( std::count( forbidden.begin(), forbidden.end(), test_particle.name() ) != 0 ){
         //DEBUG("Skipping: " << test_particle ); 
@@ -71,7 +74,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
     tmp.push_back( new MinuitExpression(new_name, sgn * MinuitParameterLink(param) )) ;  
   }
   for( auto& p : tmp ){
-    if( mps.find(p->name()) == 0 ) mps.add( p );
+    if( mps.find(p->name()) == 0 && existing.count(p->name()) == 0 ) mps.add( p );
     else delete p; 
   }
 }
-- 
2.43.0


From bbda68889c6a260d0e148a9f9498a9e3437a67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:31 +0000
Subject: [PATCH 39/68] fix: MinuitParameter constructor without flag ignored
 its arguments

---
 src/MinuitParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameter.cpp b/src/MinuitParameter.cpp
index 0ef9140..c00ff87 100644
--- a/src/MinuitParameter.cpp
+++ b/src/MinuitParameter.cpp
@@ -22,7 +22,7 @@ MinuitParameter::MinuitParameter( const std::string& name, const Flag& fix, cons
 }
 
 MinuitParameter::MinuitParameter( const std::string& name, const double& mean, const double& step, const double& mi, const double& ma )
-  : MinuitParameter(name, Flag::Free, m_meanInit, m_stepInit, m_minInit, m_maxInit ) 
+  : MinuitParameter(name, Flag::Free, mean, step, mi, ma ) 
 {
   DEBUG( "Building parameter : " << name );
   resetToInit();
-- 
2.43.0


From 2a8cac80ac271b373153bb2141f3e41f21df6cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:31 +0000
Subject: [PATCH 40/68] fix: MinuitParameterSet kept rejected duplicates, stale
 keys after unregister, and dereferenced end() for unknown keys

---
 src/MinuitParameterSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 549974f..735552b 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -31,11 +31,11 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 {
   bool success = true;
   if ( nullptr == parPtr ) return false;
-  m_parameters.push_back( parPtr );
   if ( m_keyAccess.find( parPtr->name() ) != m_keyAccess.end() ) {
     WARNING( "Parameter with name " << parPtr->name() << " already exists!, skipping" );
     return false; 
   }
+  m_parameters.push_back( parPtr );
   DEBUG( "Adding: " << parPtr->name() ); 
   m_keyAccess[parPtr->name()] = parPtr;
   return success;
@@ -57,6 +57,7 @@ bool MinuitParameterSet::unregister( MinuitParameter* parPtr )
     return false;
   }
   m_parameters.erase( remove( m_parameters.begin(), m_parameters.end(), parPtr ), m_parameters.end() );
+  m_keyAccess.erase( parPtr->name() );
   return true;
 }
 
@@ -82,6 +83,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key )
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -91,6 +93,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key ) const
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
-- 
2.43.0


From 066a37e3237f6beaa36234c8ee7f5e7d31f9d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:31 +0000
Subject: [PATCH 41/68] fix: options overwritten by a later line were listed
 twice in the ordered input

---
 src/OptionsParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 2bdafe7..a85e89c 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -119,8 +119,8 @@ void OptionsParser::addArg( const std::vector<std::string>& tokens )
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
   else { 
+    if( m_parsedLines.count(key) == 0 ) m_orderedKeys.push_back(key); 
     m_parsedLines[key] = tokens; 
-    m_orderedKeys.push_back(key); 
   }
 }
 
-- 
2.43.0


From 140d621c901aeebfee353fce3d3639c897e8d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:31 +0000
Subject: [PATCH 42/68] fix: replaceAll, stringMatchesWildcard, vectorFromFile
 and ${VAR} expansion did not do what they say

---
 src/Utilities.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 482395a..985cd9e 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -18,7 +18,7 @@
 std::vector<std::string> AmpGen::vectorFromFile( const std::string& filename, const char ignoreLinesThatBeginWith )
 {
   std::vector<std::string> output;
-  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);} ); 
+  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);}, ignoreLinesThatBeginWith ); 
   return output;
 }
 
@@ -117,7 +117,7 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
     pos = output.find( toReplace, start_pos );
     if ( pos != std::string::npos ) {
       output.replace( pos, toReplace.length(), replaceWith );
-      start_pos = pos + toReplace.length();
+      start_pos = pos + replaceWith.length();
     }
   } while ( pos != std::string::npos );
   return output;
@@ -217,23 +217,13 @@ bool AmpGen::stringMatchesWildcard( const std::string& input, const std::string&
     const char wildcard_character )
 {
   auto pos = wildcard_string.find( wildcard_character ); /// TEST_foobar -> *_foobar
-  if ( wildcard_string.size() == 1 && wildcard_string[0] == wildcard_character ) {
-    return true;
-  }
   if ( pos == std::string::npos ) {
     return input == wildcard_string;
   }
-  if ( pos == wildcard_string.size() - 1 ) {
-    return input.find( wildcard_string.substr( 0, wildcard_string.size() - 1 ) ) == 0;
-  } else {
-    const std::string pattern1 = wildcard_string.substr( 0, pos + 1 );
-    const std::string pattern2 = wildcard_string.substr( pos + 1 );
-    bool match1 = stringMatchesWildcard( input, pattern1, wildcard_character );
-    if ( !match1 ) return false;
-    auto pos2             = pattern2.find( wildcard_character );
-    auto posInInputString = input.find( pattern2.substr( 0, pos2 ) );
-    if ( posInInputString == std::string::npos ) return false;
-    return stringMatchesWildcard( input.substr( posInInputString ), pattern2, wildcard_character );
+  if ( input.compare( 0, pos, wildcard_string, 0, pos ) != 0 ) return false;
+  const std::string pattern = wildcard_string.substr( pos + 1 );
+  for ( size_t i = pos; i <= input.size(); ++i ) {
+    if ( stringMatchesWildcard( input.substr( i ), pattern, wildcard_character ) ) return true;
   }
   return false;
 }
@@ -343,7 +333,6 @@ std::string AmpGen::expandGlobals( std::string path )
     if ( path[pos + 1] == '{' ) {
       end_pos       = path.find( "}", pos );
       variable_name = path.substr( pos + 2, end_pos - pos - 2 );
-      end_pos       = end_pos + 1;
     } else {
       end_pos       = find_next_of( path, {".", "/"}, pos );
       variable_name = path.substr( pos + 1, end_pos - pos - 1 );
-- 
2.43.0


From 48926a063300c481017b4d8b4f6ed8c9ffe09a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:03 +0000
Subject: [PATCH 43/68] fix: a vector complex number built from a real one has
 imaginary part zero (was uninitialised)

---
 AmpGen/Complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 6508b8f..682e254 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -14,7 +14,7 @@ namespace AmpGen {
     // Complex( const float&   re, const float& im) : re(re), im(im) {}
     Complex( const std::complex<double>& f ) : re( f.real() ), im( f.imag() ) {}
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
-    explicit Complex( const real_t& arg ) : re(arg) {};
+    explicit Complex( const real_t& arg ) : re(arg), im(0.) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
     // explicit Complex( const double& arg ) : re(arg) {};
     inline Complex operator+=(const Complex& rhs ); 
-- 
2.43.0


From 653afeb19209ca53cd1cdeca1d5145c2de9728e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:03 +0000
Subject: [PATCH 44/68] fix: the vectorised complex square root of a negative
 real number is +i sqrt|x| as in scalar code (sign(0) was -1)

---
 AmpGen/simd/arm128d_types.h | 2 +-
 AmpGen/simd/avx2d_types.h   | 2 +-
 AmpGen/simd/avx2f_types.h   | 2 +-
 AmpGen/simd/avx512d_types.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/AmpGen/simd/arm128d_types.h b/AmpGen/simd/arm128d_types.h
index 518a9cf..05ae3fd 100644
--- a/AmpGen/simd/arm128d_types.h
+++ b/AmpGen/simd/arm128d_types.h
@@ -108,7 +108,7 @@ namespace AmpGen {
 
     inline real_v select(const int_v& mask, const real_v& a, const real_v& b ) { return vbslq_f64(mask, a, b); }
     inline real_v select(const bool& mask  , const real_v& a, const real_v& b ) { return mask ? a : b; }
-    inline real_v sign  ( const real_v& v){ return select( v > real_v(0.), +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v < real_v(0.), -1., +1. ); }
     inline real_v atan2( const real_v& y, const real_v& x ){
       const double* bx = x.to_ptr();
       const double* by = y.to_ptr(); 
diff --git a/AmpGen/simd/avx2d_types.h b/AmpGen/simd/avx2d_types.h
index 52560c7..b5ad18f 100644
--- a/AmpGen/simd/avx2d_types.h
+++ b/AmpGen/simd/avx2d_types.h
@@ -118,7 +118,7 @@ namespace AmpGen {
 
     inline real_v select(const real_v& mask, const real_v& a, const real_v& b ) { return _mm256_blendv_pd( b, a, mask ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; }
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v < 0., -1., +1. ); }
     inline real_v conj( const real_v& v ) { return v; }
     
     inline real_v atan2( const real_v& y, const real_v& x ){
diff --git a/AmpGen/simd/avx2f_types.h b/AmpGen/simd/avx2f_types.h
index 7202250..870a1d9 100644
--- a/AmpGen/simd/avx2f_types.h
+++ b/AmpGen/simd/avx2f_types.h
@@ -104,7 +104,7 @@ namespace AmpGen {
     inline real_v abs   ( const real_v& v ) { return v & _mm256_castsi256_ps( _mm256_set1_epi32( 0x7FFFFFFF ) ); }
     inline real_v select(const real_v& mask, const real_v& a, const real_v& b ) { return _mm256_blendv_ps( b, a, mask ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; } 
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v < 0., -1., +1. ); }
     inline real_v fmadd ( const real_v& a, const real_v& b, const real_v& c ) { return _mm256_fmadd_ps(a, b, c); }
     inline real_v remainder( const real_v& a, const real_v& b ){ return a - real_v(_mm256_round_ps(a/b, _MM_FROUND_TO_NEG_INF)) * b; }
     inline real_v atan2( const real_v& y, const real_v& x ){ 
diff --git a/AmpGen/simd/avx512d_types.h b/AmpGen/simd/avx512d_types.h
index 78e1acc..d5dd732 100644
--- a/AmpGen/simd/avx512d_types.h
+++ b/AmpGen/simd/avx512d_types.h
@@ -60,7 +60,7 @@ namespace AmpGen {
     // inline real_v exp( const real_v& v )  { return exp512_ps(v) ; }
     inline real_v select(const __mmask8& mask, const real_v& a, const real_v& b ) { return _mm512_mask_mov_pd( b, mask, a ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; } 
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v < 0., -1., +1. ); }
     inline real_v atan2( const real_v& y, const real_v& x ){ 
       std::array<double, 8> bx{x.to_array()}, by{y.to_array()};
       return real_v ( 
-- 
2.43.0


From f37fcf4ad8476377820aa99eda40bf1b63b8d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:21 +0000
Subject: [PATCH 45/68] fix: integrate<1> returned 0 for functions of a double

---
 AmpGen/NumericalIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/NumericalIntegration.h b/AmpGen/NumericalIntegration.h
index eaf1288..27e2dbc 100644
--- a/AmpGen/NumericalIntegration.h
+++ b/AmpGen/NumericalIntegration.h
@@ -93,7 +93,7 @@ namespace AmpGen {
     //   2.A. van Doren and L. de Ridder, An adaptive algorithm for numerical
     //     integration over an n-dimensional cube, J.Comput. Appl. Math. 2 (1976) 207-217.
     if constexpr( dim == 1 ){
-      if constexpr( is_functor<fcn, double(const double&)>::value ) { integrate_1d(F, xmin[0], xmax[0] ); }
+      if constexpr( is_functor<fcn, double(const double&)>::value ) { return integrate_1d(F, xmin[0], xmax[0] ); }
       else if constexpr( is_functor<fcn, double(const std::array<double, 1>& ) >::value ){
         return integrate_1d( [&F](const double& x){ return F( std::array<double,1>{x} ); }, xmin[0], xmax[0] );
       }
-- 
2.43.0


From 05f154b1726aa1f373469c252100581dd4e9455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:21 +0000
Subject: [PATCH 46/68] fix: adding to a compensated sum with + applied the
 correction with the wrong sign

---
 AmpGen/KahanSum.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/AmpGen/KahanSum.h b/AmpGen/KahanSum.h
index 25b5e8b..c9dc125 100644
--- a/AmpGen/KahanSum.h
+++ b/AmpGen/KahanSum.h
@@ -34,11 +34,8 @@ namespace AmpGen {
   template <typename T> 
     KahanSum<T> operator+( const KahanSum<T>& l, const T& var )
     {
-      KahanSum<T> rt; 
-      T y = var - l.cor;
-      T t = l.sum + y;
-      rt.cor = (t-l.sum)-y; 
-      rt.sum = t;
+      KahanSum<T> rt = l; 
+      rt += var;
       return rt;
     }
 
-- 
2.43.0


From b5c9a3fc74982f977a40655fc19c5ae06f0d6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:19 +0000
Subject: [PATCH 47/68] fix: automatic ordering accepted events with the wrong
 particles, writing out of range, and rejected conjugate decays with
 self-conjugate particles

---
 src/EventType.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/EventType.cpp b/src/EventType.cpp
index 8b0e524..e3187b4 100644
--- a/src/EventType.cpp
+++ b/src/EventType.cpp
@@ -243,26 +243,23 @@ std::function<void( Event& )> EventType::symmetriser() const
 
 std::function<bool(Event&, const std::vector<int>&)> EventType::automaticOrdering() const 
 {
-  std::vector<int> ids;
-  for( unsigned i = 0 ; i != m_particleNames.size(); ++i ) ids.push_back( ParticleProperties::get(m_particleNames[i])->pdgID() );
-  auto matches = [](const auto& c1, const auto& c2 , unsigned sgn = +1)
+  std::vector<int> ids, conj_ids;
+  for( unsigned i = 0 ; i != m_particleNames.size(); ++i )
   {
-    std::vector<bool> used( c1.size(), false );
-    for(unsigned i = 0; i != c1.size(); ++i )
-    {
-      for( unsigned j = 0; j != c2.size(); ++j )
-      {
-        if( c1[i] == sgn * c2[j] && ! used[j] ) used[j] = true;
-      }
-    }
-    return std::all_of( std::begin(used), std::end(used), [](auto b) { return b; }  ) ;
+    auto props = ParticleProperties::get(m_particleNames[i]);
+    ids.push_back( props->pdgID() );
+    conj_ids.push_back( props->anti().pdgID() ); // self-conjugate particles keep their ID 
+  }
+  auto matches = [](const std::vector<int>& c1, const std::vector<int>& c2)
+  {
+    return c1.size() == c2.size() && std::is_permutation( c1.begin(), c1.end(), c2.begin() );
   };
 
-  return [ids, matches](auto& event, const auto& actual_ids) -> bool {
+  return [ids, conj_ids, matches](auto& event, const auto& actual_ids) -> bool {
     std::vector<unsigned> new_addresses( ids.size(), 999 ); 
-    int sgn = +1; 
-    if( matches(ids, actual_ids ) ) sgn = +1;
-    else if( matches(ids, actual_ids, -1 ) ) sgn = -1;
+    const std::vector<int>* expected = nullptr; 
+    if( matches(ids, actual_ids ) ) expected = &ids;
+    else if( matches(conj_ids, actual_ids) ) expected = &conj_ids;
     else { ERROR("Ids: " << vectorToString(actual_ids, " ") << " do not match either particle or antiparticle ["<< vectorToString(ids, " ") << "]" );
       return false; 
     }
@@ -271,7 +268,7 @@ std::function<bool(Event&, const std::vector<int>&)> EventType::automaticOrderin
     {
       for( unsigned j = 0 ; j != actual_ids.size(); ++j )
       {
-        if( actual_ids[j] ==  sgn * ids[i] && new_addresses[j]==999 ){ new_addresses[j] = i; break ; }
+        if( actual_ids[j] == (*expected)[i] && new_addresses[j]==999 ){ new_addresses[j] = i; break ; }
       }
     }
     event.reorder( new_addresses );
-- 
2.43.0


From 50dc4aeacbfb33a5719f11f192979fbc1c5d9bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 48/68] fix: lanes beyond the last event of an EventListSIMD
 carry no weight

utils::gather took a default of 0 to mean no default, and gave the padding the weight of the last event.
---
 AmpGen/simd/utils.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/AmpGen/simd/utils.h b/AmpGen/simd/utils.h
index ce8498d..0ebae10 100644
--- a/AmpGen/simd/utils.h
+++ b/AmpGen/simd/utils.h
@@ -63,12 +63,16 @@ namespace AmpGen {
         template <>        struct is_vector_type <AVX::int_v>   : std::true_type {}; 
     #endif
     template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
-        const container_type& container, const functor_type& functor, unsigned offset=0, typename simd_type::scalar_type df =0.)
+        const container_type& container, const functor_type& functor, unsigned offset=0)
     {
       std::array<typename simd_type::scalar_type, simd_type::size> rv; 
-      if( df == 0. )
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : functor(container[container.size()-1]); 
-      else 
+      return simd_type( rv.data() );
+    } 
+    template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
+        const container_type& container, const functor_type& functor, unsigned offset, typename simd_type::scalar_type df )
+    {
+      std::array<typename simd_type::scalar_type, simd_type::size> rv; 
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : df; 
       return simd_type( rv.data() );
     } 
-- 
2.43.0


From 22690ff7dea4928c044794c0887a09746b278969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 49/68] fix: padding an EventListSIMD read from a tree with
 fewer events than lanes

The padding lanes were events without fields, read out of range.
---
 src/EventListSIMD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index 9e07147..e9d1417 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -129,7 +129,10 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
         if( applySym ) symmetriser( temp );
         buffer[k] = temp;  
       } 
-      else buffer[k].setWeight(0);
+      else {
+        buffer[k] = temp;
+        buffer[k].setWeight(0);
+      }
     }
     gather( buffer, block );
   }
-- 
2.43.0


From 617097ace84f54bbe409747fb4342cc5c551a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 50/68] fix: an EventListSIMD made from several files keeps the
 events of all of them

Each file replaced the events of the ones before.
---
 src/EventListSIMD.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index e9d1417..a0f45a4 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -115,8 +115,8 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
   bool hasEventList    = entryList.size() != 0;
   size_t nEvents       = hasEventList ? entryList.size() : tree->GetEntries();
   std::array<Event, real_v::size> buffer;
-  
-  resize( nEvents ); 
+  const EventListSIMD previous = *this; 
+  resize( previous.size() + nEvents ); 
   auto symmetriser = m_eventType.symmetriser();
   for ( unsigned int block = 0; block < m_data.nBlocks(); ++block ) 
   {
@@ -125,7 +125,12 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
       auto evt = k + block * real_v::size; 
       if(evt  < m_data.size() )
       {
-        tr.getEntry( hasEventList ? entryList[evt] : evt );
+        if( evt < previous.size() )
+        {
+          buffer[k] = previous[evt];
+          continue;
+        }
+        tr.getEntry( hasEventList ? entryList[evt - previous.size()] : evt - previous.size() );
         if( applySym ) symmetriser( temp );
         buffer[k] = temp;  
       } 
-- 
2.43.0


From 8ffed862c5bf7c5979fc9ec10a3d5086b96234e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 51/68] fix: iterating over an EventListSIMD reads past the end
 of whole blocks

---
 AmpGen/simd/iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/simd/iterator.h b/AmpGen/simd/iterator.h
index 3949a0a..22230b8 100644
--- a/AmpGen/simd/iterator.h
+++ b/AmpGen/simd/iterator.h
@@ -11,7 +11,7 @@ namespace AmpGen {
     scatter_iterator( const size_t& pos, store_type* store ) : 
       m_store(store), 
       m_pos(pos) { 
-        if( m_store != nullptr && pos < m_store->aligned_size()) m_buffer = m_store->scatter(pos / simd_size );
+        if( m_store != nullptr && pos < m_store->aligned_size()) m_buffer = m_store->scatter(pos - pos % simd_size);
       }
     stored_type* operator->() const { return &( m_buffer )[m_pos % simd_size]; }
     stored_type   operator*() const { return    m_buffer  [m_pos % simd_size]; }
@@ -22,7 +22,7 @@ namespace AmpGen {
       if ( m_pos % simd_size == 0 )
       { 
         if constexpr(modifiable == true ) m_store->gather(m_buffer, (m_pos-1) / simd_size); 
-        m_buffer = m_store->scatter( m_pos );
+        if( m_pos < m_store->aligned_size() ) m_buffer = m_store->scatter( m_pos );
       }
       return *this;  
     }
-- 
2.43.0


From bdde5fff4d8f9ae9da96a65056ae4c4b3b46dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 52/68] fix: FunctionCache reads its input before it is set

---
 AmpGen/Store.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Store.h b/AmpGen/Store.h
index 9101f42..a62e0eb 100644
--- a/AmpGen/Store.h
+++ b/AmpGen/Store.h
@@ -117,7 +117,7 @@ namespace AmpGen {
     public:
       FunctionCache() = default; 
       FunctionCache(const input_type* input, const std::size_t& nFields = 0 ) : 
-        Store<stored_type, align>(m_input->size(), nFields ), m_input(input) {} 
+        Store<stored_type, align>(input->size(), nFields ), m_input(input) {} 
 
       template <typename functor_type> FunctionCache(const input_type* input, const std::vector<functor_type>& functors)
       {
-- 
2.43.0


From 80424dbd7afd96aad9f91d35ac75ec6b68adc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 53/68] fix: EventList::integral rounds every partial sum down
 to an integer

---
 src/EventList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventList.cpp b/src/EventList.cpp
index 33e9069..8077be4 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -207,7 +207,7 @@ TH2D* EventList::makeProjection( const Projection2D& projection, const ArgumentP
 
 double EventList::integral() const
 {
-  return std::accumulate( std::begin(*this), std::end(*this), 0, [](double rv, const auto& evt){ return rv + evt.weight(); } );
+  return std::accumulate( std::begin(*this), std::end(*this), 0., [](double rv, const auto& evt){ return rv + evt.weight(); } );
 }
 
 void EventList::add( const EventList& evts )
-- 
2.43.0


From 5e227eb0117bba8b20e00b39b71afda7ccd720ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 54/68] fix: a cleared Store, or EventListSIMD, keeps claiming
 its old number of entries

---
 AmpGen/Store.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Store.h b/AmpGen/Store.h
index a62e0eb..083cf9b 100644
--- a/AmpGen/Store.h
+++ b/AmpGen/Store.h
@@ -89,7 +89,7 @@ namespace AmpGen {
         m_store.resize(m_nBlocks * m_nFields); 
         m_index.clear();
       }
-      void clear() { m_store.clear(); m_index.clear() ; }
+      void clear() { m_store.clear(); m_index.clear() ; m_nEntries = 0; m_nBlocks = 0; }
       void store( const size_t& event0, const unsigned* index, const stored_type* item, const unsigned N = 1 )
       {
         for( unsigned i = 0 ; i != N; ++i ) (*this)(event0, index[i] ) = item[i]; 
-- 
2.43.0


From aa0fb5edf71da9930fa6993dc134789c9dd115d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 55/68] fix: TreeReader looks up an entry past the end of its
 entry list

---
 AmpGen/TreeReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/TreeReader.h b/AmpGen/TreeReader.h
index 1e64d1f..d0a783a 100644
--- a/AmpGen/TreeReader.h
+++ b/AmpGen/TreeReader.h
@@ -46,7 +46,7 @@ namespace AmpGen
         Iterator& operator++()
         {
           m_position++;
-          m_parent->getEntry( m_position );
+          if( m_position < m_parent->nEntries() ) m_parent->getEntry( m_position );
           return *this;
         }
         bool operator==( const Iterator& rhs ) const { return m_position == rhs.m_position; }
-- 
2.43.0


From b9376259c6e972cfdefb48762266033bd030737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 56/68] fix: sums delete event lists they do not own when given
 a list of the other kind

---
 AmpGen/CoherentSum.h  | 2 +-
 AmpGen/PolarisedSum.h | 2 +-
 src/CoherentSum.cpp   | 1 +
 src/PolarisedSum.cpp  | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index d9644bf..b3f1372 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -79,7 +79,7 @@ namespace AmpGen
     #if ENABLE_AVX
       void setEvents( const EventList& list) { 
         WARNING("Setting events from a AoS container, will need to make a copy");
-        m_ownEvents = true; setEvents( *(new EventListSIMD(list)) ) ; } 
+        setEvents( *(new EventListSIMD(list)) ) ; m_ownEvents = true; } 
       void setMC    ( const EventList& list) { 
         WARNING("Setting integration events from a AoS container, will need to make a copy");
         setMC( *(new EventListSIMD(list)) ) ; } 
diff --git a/AmpGen/PolarisedSum.h b/AmpGen/PolarisedSum.h
index 61b18b5..5be2144 100644
--- a/AmpGen/PolarisedSum.h
+++ b/AmpGen/PolarisedSum.h
@@ -43,7 +43,7 @@ namespace AmpGen
       void setEvents(EventList_type&);
       void setMC(EventList_type&);
       #if ENABLE_AVX
-        void setEvents(EventList& evts){ m_ownEvents = true; setEvents( *new EventList_type(evts)) ; };
+        void setEvents(EventList& evts){ setEvents( *new EventList_type(evts)) ; m_ownEvents = true; };
         void setMC(EventList& evts){ setMC( *new EventList_type(evts)) ; };
         double operator()(const double*, const unsigned) const; 
       #endif
diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index a81703c..56465a4 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -230,6 +230,7 @@ void CoherentSum::setEvents( const EventList_type& list )
   reset();
   for( auto& me : m_matrixElements ){ DEBUG("Registering: " << me.name() ) ; }
   if( m_ownEvents && m_events != nullptr ) delete m_events; 
+  m_ownEvents = false;
   m_events = &list;
   m_cache.allocate(m_events, m_matrixElements); 
 }
diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 1d0c18b..64153b0 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -212,6 +212,7 @@ void   PolarisedSum::setEvents( PolarisedSum::EventList_type& events )
 { 
   reset();
   if( m_events != nullptr && m_ownEvents ) delete m_events; 
+  m_ownEvents = false;
   m_events = &events;
   m_cache.allocate( m_events, m_matrixElements); 
   m_pdfCache.allocate(&m_cache, m_probExpression); 
-- 
2.43.0


From 36c50c497aae434875db6babdde3cec9f8140754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:54 +0000
Subject: [PATCH 57/68] fix: an incoherent sum is normalised by its own
 integral, not the coherent one

---
 AmpGen/CoherentSum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index b3f1372..517af8c 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -60,7 +60,7 @@ namespace AmpGen
     size_t size()                          const { return m_matrixElements.size(); }
     real_t getWeight()                     const { return m_weight; }
     real_t norm( const Bilinears& norms )  const;
-    real_t norm() const;
+    virtual real_t norm() const;
     real_t getNorm( const Bilinears& normalisations );
 
     complex_t norm( const size_t& x, const size_t& y ) const;
-- 
2.43.0


From 2fd7ca8a0a96720acd92bcc51e7c71ff23d8e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:54 +0000
Subject: [PATCH 58/68] fix: the likelihood of a plain event list counted every
 event once per vector lane

---
 AmpGen/SumPDF.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/AmpGen/SumPDF.h b/AmpGen/SumPDF.h
index 03e7ad6..f8527f4 100644
--- a/AmpGen/SumPDF.h
+++ b/AmpGen/SumPDF.h
@@ -62,6 +62,8 @@ namespace AmpGen
       fill_likelihood( tmp.data() );
       KahanSum<real_v> sum; 
       for(unsigned block = 0 ; block != tmp.size(); ++block ) sum += tmp[block]; 
+      // a plain list has one event per block, whose value fills every lane 
+      if constexpr( std::is_same<eventListType,EventList>::value ) return -2 * utils::get<0>(sum());
       auto rt = -2 * utils::sum_elements(sum());
       return rt; 
     } 
-- 
2.43.0


From 8041a92437749dab2239e8f912a9889d006c66c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:54 +0000
Subject: [PATCH 59/68] fix: PolarisedSum::prepare with an integration sample
 but no events

---
 src/PolarisedSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 64153b0..3396b8d 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -179,7 +179,7 @@ void   PolarisedSum::prepare()
   {
     if( m_nCalls % 10000 == 0 ) debug_norm();
   }
-  m_pdfCache.update(m_probExpression); 
+  if( m_events != nullptr ) m_pdfCache.update(m_probExpression); 
  // INFO( std::setprecision(15) << " " << m_norm << " " << m_pdfCache[0] );
   m_nCalls++; 
 }
-- 
2.43.0


From 0dc95c5aab944d89b5368e1ba111947a4d1a3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:54 +0000
Subject: [PATCH 60/68] fix: transverse vector polarisation of spin-1 states
 has the same scale as the longitudinal one

---
 src/PolarisedSum.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 3396b8d..395fe61 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -151,9 +151,9 @@ std::vector<complex_t> densityMatrix(const unsigned& dim, const std::vector<Minu
     double Txy = pv[5];
     double Txz = pv[6];
     double Tyz = pv[7];
-    return {1 + 1.5*pz + sqrt(1.5)*Tzz                   , sqrt(0.375)*(px+1i*py) + sqrt(3.)*(Txz+1i*Tyz), -sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy), 
-          sqrt(0.375)*(px-1i*py) + sqrt(3)*(Txz-1i*Tyz), 1 - sqrt(6.)*Tzz                              , sqrt(0.375)*(px+1i*py) - sqrt(3.)*(Txz+1i*Tyz) ,
-         -sqrt(1.500)*( Tzz + 2.*Tyy + 2.*1i*Txy)      , sqrt(0.375)*(px-1i*py) - sqrt(3)*(Txz-1i*Tyz) , 1. - 1.5*pz + sqrt(1.5)*Tzz }; 
+    return {1 + 1.5*pz + sqrt(1.5)*Tzz                   , sqrt(1.125)*(px+1i*py) + sqrt(3.)*(Txz+1i*Tyz), -sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy), 
+          sqrt(1.125)*(px-1i*py) + sqrt(3)*(Txz-1i*Tyz), 1 - sqrt(6.)*Tzz                              , sqrt(1.125)*(px+1i*py) - sqrt(3.)*(Txz+1i*Tyz) ,
+         -sqrt(1.500)*( Tzz + 2.*Tyy + 2.*1i*Txy)      , sqrt(1.125)*(px-1i*py) - sqrt(3)*(Txz-1i*Tyz) , 1. - 1.5*pz + sqrt(1.5)*Tzz }; 
   }
   ERROR("Density matrices not implemented for state with size="<<dim);
   return {1.};
@@ -397,13 +397,13 @@ Expression PolarisedSum::probExpression(const Tensor& T_matrix, const std::vecto
     auto Txz = p[6];
     auto Tyz = p[7];
     rho(0,0) = 1 + 1.5 * pz + std::sqrt(1.5)*Tzz;
-    rho(1,0) = std::sqrt(0.375)*(px+1i*py) + std::sqrt(3.)*(Txz+1i*Tyz);
+    rho(1,0) = std::sqrt(1.125)*(px+1i*py) + std::sqrt(3.)*(Txz+1i*Tyz);
     rho(2,0) = -std::sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy); 
-    rho(0,1) = std::sqrt(0.375)*(px-1i*py) + std::sqrt(3.)*(Txz-1i*Tyz);
+    rho(0,1) = std::sqrt(1.125)*(px-1i*py) + std::sqrt(3.)*(Txz-1i*Tyz);
     rho(1,1) = 1 - std::sqrt(6.)*Tzz;
-    rho(2,1) = std::sqrt(0.375)*(px+1i*py) - std::sqrt(3.)*(Txz+1i*Tyz);
+    rho(2,1) = std::sqrt(1.125)*(px+1i*py) - std::sqrt(3.)*(Txz+1i*Tyz);
     rho(0,2) = -std::sqrt(1.5)*( Tzz + 2.*Tyy + 2.*1i*Txy); 
-    rho(1,2) = std::sqrt(0.375)*(px-1i*py) - std::sqrt(3)*(Txz-1i*Tyz);
+    rho(1,2) = std::sqrt(1.125)*(px-1i*py) - std::sqrt(3)*(Txz-1i*Tyz);
     rho(2,2) = 1. - 1.5*pz + std::sqrt(1.5)*Tzz;
   }
   Tensor TT;
-- 
2.43.0


From d6f67020a966ffbd3c320725451dd62ca7528c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:54 +0000
Subject: [PATCH 61/68] fix: final-state polarisation fraction in the norm of
 polarised mothers and in the components

---
 src/PolarisedSum.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 395fe61..e92b377 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -277,17 +277,15 @@ complex_t PolarisedSum::norm(const size_t& i, const size_t& j, Integrator* integ
     auto m1        = (psiIndex-m2)/s1; 
     if( m_pfVector.size() != 0 )
     {
-      if(psiIndex==0){
-        double crsqN = m_pfVector[0];
-        if(f == 0) {
-          total          += m_rho[psiIndex] * crsqN * m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f);
-          DEBUG(" norm total - RH  " << crsqN << " * "  << m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f) );
-          DEBUG("                = " << total);
-        } else{
-          total          += m_rho[psiIndex] * (1 - crsqN) *  m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f);
-          DEBUG(" norm total - LH  " << 1- crsqN <<  " * "  << m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f) );
-          DEBUG("                = " << total);
-        }
+      double crsqN = m_pfVector[0];
+      if(f == 0) {
+        total          += m_rho[psiIndex] * crsqN * m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f);
+        DEBUG(" norm total - RH  " << crsqN << " * "  << m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f) );
+        DEBUG("                = " << total);
+      } else{
+        total          += m_rho[psiIndex] * (1 - crsqN) *  m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f);
+        DEBUG(" norm total - LH  " << 1- crsqN <<  " * "  << m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f) );
+        DEBUG("                = " << total);
       }
     }
     else{
@@ -557,7 +555,8 @@ KeyedFunctors<double(Event)> PolarisedSum::componentEvaluator(const EventList_ty
           auto psiIndex  = (x-f) / s2;
           auto m2        = psiIndex % s1;
           auto m1        = (psiIndex-m2)/s1;
-          total          += this->m_rho[psiIndex] * ci * cache->get<complex_t>(event.index(),R * i + m1 * s2 + f) 
+          double pf      = this->m_pfVector.size() == 0 ? 1 : f == 0 ? double(this->m_pfVector[0]) : 1 - double(this->m_pfVector[0]);
+          total          += pf * this->m_rho[psiIndex] * ci * cache->get<complex_t>(event.index(),R * i + m1 * s2 + f) 
                                        * std::conj( cj * cache->get<complex_t>(event.index(),R * j + m2 * s2 + f) );
         }
         return s * std::real(total);
-- 
2.43.0


From 2ef919a62158e0bdfd1feda34060d67c5ff6194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:33 +0000
Subject: [PATCH 62/68] fix: a pool that was waited for terminates the program
 when destroyed and accepts tasks it never runs

---
 src/ThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThreadPool.cpp b/src/ThreadPool.cpp
index b0489cf..e30a4fb 100644
--- a/src/ThreadPool.cpp
+++ b/src/ThreadPool.cpp
@@ -37,5 +37,5 @@ void ThreadPool::waitForStoppedThreads()
   }
   m_condition.notify_all();
   for(std::thread &worker: m_workers) worker.join();
-  m_stop = false;
+  m_workers.clear();
 }
-- 
2.43.0


From d62ac9c1a8d76630c9443f4943df9012289e60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:33 +0000
Subject: [PATCH 63/68] fix: the futures of a disabled thread pool never
 receive their results

---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index 5b2d1ee..1a210c1 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -68,7 +68,7 @@ namespace AmpGen
     using return_type = typename std::invoke_result_t<F, Args...>;
     auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
     std::future<return_type> res = task->get_future();
-    if(! m_enableThreadPool ) {  f(args...); return res; } 
+    if(! m_enableThreadPool ) { (*task)(); return res; } 
     else
     {
       {
-- 
2.43.0


From 738d18a19095ac7cfd410cdc95d67a429c0f05aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:07 +0000
Subject: [PATCH 64/68] fix: TreePhaseSpace accept-reject bound is the largest,
 not the smallest, maximum weight of the chains

---
 src/TreePhaseSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreePhaseSpace.cpp b/src/TreePhaseSpace.cpp
index 5782997..b551cfb 100644
--- a/src/TreePhaseSpace.cpp
+++ b/src/TreePhaseSpace.cpp
@@ -55,7 +55,7 @@ TreePhaseSpace::TreePhaseSpace(const std::vector<Particle>& decayChains, const E
 void TreePhaseSpace::initialise_weights() 
 {
   auto weights = std::vector<double>( m_gen.size(), 1./m_gen.size() );
-  m_wmax = (*std::max_element( m_gen.begin(), m_gen.end(), [](auto a, auto b){ return a->maxWeight() > b->maxWeight();} )) -> maxWeight(); 
+  m_wmax = (*std::max_element( m_gen.begin(), m_gen.end(), [](auto a, auto b){ return a->maxWeight() < b->maxWeight();} )) -> maxWeight(); 
   m_dice = DiscreteDistribution(weights); 
 }
 
-- 
2.43.0


From dc527c3f826714b79865a1c0b5e256b6a26f3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:07 +0000
Subject: [PATCH 65/68] fix: TreePhaseSpace built from several chains keeps the
 default random generator

---
 src/TreePhaseSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreePhaseSpace.cpp b/src/TreePhaseSpace.cpp
index b551cfb..ea96af3 100644
--- a/src/TreePhaseSpace.cpp
+++ b/src/TreePhaseSpace.cpp
@@ -48,7 +48,7 @@ TreePhaseSpace::TreePhaseSpace(const std::vector<Particle>& decayChains, const E
 //   add_decay_chain( Particle( decayChains[0].quasiStableTree() ) );
   
   initialise_weights(); 
-  setRandom(rndm);
+  setRandom(m_rand);
   DEBUG("w(max) = " << m_wmax << "#chains: " << m_gen.size() );  
 }
 
-- 
2.43.0


From b9d90a6a61252f21cb302a13c0618d1fcd9f0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:44 +0000
Subject: [PATCH 66/68] fix: renaming a parameter by its own name() left the
 old name in the index

---
 src/MinuitParameterSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 735552b..7ec98e6 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -231,8 +231,8 @@ bool MinuitParameterSet::rename(const std::string& name, const std::string& new_
     DEBUG("New key for " << name << " =  " << new_name << " already exists");
     return false;
   } 
-  it->setName(new_name);
   m_keyAccess.erase(name);
+  it->setName(new_name);
   m_keyAccess.emplace(new_name, it);
   return true; 
 }
-- 
2.43.0


From a9b6cc38251270fb327e69d489f04784a7bbceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:29 +0000
Subject: [PATCH 67/68] fix: ARM128d vector type: >=, fmadd and remainder
 compute what their scalar counterparts do

operator>= was <=, fmadd(a,b,c) was a + b*c, and remainder truncated through
unsigned integers, so the same generated code gave other values on ARM than on
x86; printing read past the two lanes.
---
 AmpGen/simd/arm128d_types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AmpGen/simd/arm128d_types.h b/AmpGen/simd/arm128d_types.h
index 05ae3fd..9bf9f34 100644
--- a/AmpGen/simd/arm128d_types.h
+++ b/AmpGen/simd/arm128d_types.h
@@ -71,7 +71,7 @@ namespace AmpGen {
     inline int_v operator<( const real_v& lhs, const real_v& rhs ) { return vcltq_f64(lhs,rhs); }
     inline int_v operator>( const real_v& lhs, const real_v& rhs ) { return vcgtq_f64(lhs,rhs); }
     inline int_v operator<=( const real_v& lhs, const real_v& rhs ){ return vcleq_f64( lhs, rhs ); }
-    inline int_v operator>=( const real_v& lhs, const real_v& rhs ){ return vcleq_f64( lhs, rhs ); }
+    inline int_v operator>=( const real_v& lhs, const real_v& rhs ){ return vcgeq_f64( lhs, rhs ); }
     inline int_v operator==( const real_v& lhs, const real_v& rhs ){ return vceqq_f64( lhs, rhs); }
     inline real_v sqrt( const real_v& v ) { return vsqrtq_f64(v); }
     inline real_v abs ( const real_v& v ) { return vabsq_f64(v); } 
@@ -122,14 +122,14 @@ namespace AmpGen {
     }
     inline real_v fmadd( const real_v& a, const real_v& b, const real_v& c )
     {
-      return vmlaq_f64(a, b, c);
+      return vfmaq_f64(c, a, b);
     }
-    inline real_v remainder( const real_v& a, const real_v& b ){ return a - b * real_v(vcvtq_u64_f64(a/b)); }
+    inline real_v remainder( const real_v& a, const real_v& b ){ return a - b * real_v(vrndmq_f64(a/b)); }
     inline real_v fmod( const real_v& a, const real_v& b ){ return remainder( abs(a), abs(b) ) * sign(a); }
 
     inline std::ostream& operator<<( std::ostream& os, const real_v& obj ) {
       auto data = obj.to_ptr();
-      for( unsigned i = 0 ; i != 4; ++i ) os << data[i] << " ";
+      for( unsigned i = 0 ; i != real_v::size; ++i ) os << data[i] << " ";
       return os;
     }
     template<typename real_v> inline real_v     conj(const real_v& arg ){ return arg ; }
-- 
2.43.0


From d19f140e935efc02dfe15c617b21ec4ce0923b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:05 +0000
Subject: [PATCH 68/68] fix: stand-alone source of polarised sums with a spin-1
 mother read past the three external polarisation components

---
 src/PolarisedSum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index e92b377..9132f7c 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -369,7 +369,9 @@ void PolarisedSum::generateSourceCode(const std::string& fname, const double& no
   functions.push_back( new CompiledExpression<double(const double*,  const int&)>( amp / normalisation, "FCN", m_mps, disableBatch(), includePythonBindings() ) ); 
 
   if( m_dim.first > 1 ) {
-    auto amp_extPol = probExpression(T_matrix, {Parameter("x2",0,true), Parameter("x3",0,true), Parameter("x4",0,true)}, {} );  
+    std::vector<Expression> extPol = {Parameter("x2",0,true), Parameter("x3",0,true), Parameter("x4",0,true)};
+    if( m_dim.first == 3 ) extPol.resize(8, 0.); // vector polarisation only: the five tensor components vanish 
+    auto amp_extPol = probExpression(T_matrix, extPol, {} );  
     functions.push_back( new CompiledExpression<double(const double*, const int&, const double&, const double&, const double&)>(amp_extPol / normalisation, "FCN_extPol", m_mps, disableBatch() ) );
   }
   CompilerWrapper().compile( functions, fname,{{"EventType", m_eventType.constructor_string()},{ "MatrixElements", matrixElementNames}}  );
-- 
2.43.0

