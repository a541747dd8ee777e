// S09: compile-time triplets, the locations of the field types and the type maps derived from them.
#include "so.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <tuple>
#include <typeinfo>
#include <type_traits>
namespace S=SpatialOps; namespace SS=SpatialOps::structured; using SS::IntVec; using std::string; using std::vector;
typedef std::tuple<SS::SVolField,SS::SSurfXField,SS::SSurfYField,SS::SSurfZField,SS::XVolField,SS::XSurfXField,SS::XSurfYField,SS::XSurfZField,
  SS::YVolField,SS::YSurfXField,SS::YSurfYField,SS::YSurfZField,SS::ZVolField,SS::ZSurfXField,SS::ZSurfYField,SS::ZSurfZField> All;
template<int T> using FT = typename std::tuple_element<T,All>::type;
struct V3 { int v[3]; };
// ---- triplet expressions
struct Row { const char* code; V3 val; string text; };
template<class T> static V3 read(){ V3 r={{T::X,T::Y,T::Z}}; return r; }
struct Num { int a,b, mx,mn,lt,gt,kr,ab,kd; };
static vector<Row>& rows(){ static vector<Row> r; if(r.empty()){
#define ROW( C, ... ) { Row w; w.code=C; typedef __VA_ARGS__ T; w.val=read<T>(); w.text=T::print(); IntVec i=T::int_vec(); int x=T::x_value(),y=T::y_value(),z=T::z_value(), ex=SS::IndexTripletExtract<T,S::XDIR>::value, ey=SS::IndexTripletExtract<T,S::YDIR>::value, ez=SS::IndexTripletExtract<T,S::ZDIR>::value; \
    if(i[0]!=w.val.v[0]||i[1]!=w.val.v[1]||i[2]!=w.val.v[2]||x!=i[0]||y!=i[1]||z!=i[2]||ex!=x||ey!=y||ez!=z) w.val.v[0]=1000000007; r.push_back(w); }
#define NUM( A, B )
#include "traits0.inc"
#undef ROW
#undef NUM
  } return r; }
static vector<Num>& nums(){ static vector<Num> r; if(r.empty()){
#define ROW( C, ... )
#define NUM( A, B ) { Num n={A,B,SS::Max<A,B>::result,SS::Min<A,B>::result,SS::LThan<A,B>::result,SS::GThan<A,B>::result,SS::Kronecker<A,B>::value,SS::Abs<A>::result,SS::Kronecker<B,B>::value}; r.push_back(n); }
#include "traits0.inc"
#undef ROW
#undef NUM
  } return r; }
static V3 eval(const char* s){ vector<V3> st; vector<int> n; std::istringstream in(s); string w; while(in>>w){
    if(w=="t"){ V3 t={{n[0],n[1],n[2]}}; st.push_back(t); n.clear(); }
    else if(w=="n"||w=="a"||w=="p"){ V3& t=st.back(); for(int d=0;d<3;++d) t.v[d]= w=="n"? -t.v[d]: w=="a"? std::abs(t.v[d]): std::max(0,t.v[d]); }
    else if(w=="+"||w=="-"||w=="*"||w=="<"||w==">"){ V3 b=st.back(); st.pop_back(); V3& a=st.back(); for(int d=0;d<3;++d) a.v[d]= w=="+"? a.v[d]+b.v[d]: w=="-"? a.v[d]-b.v[d]: w=="*"? a.v[d]*b.v[d]: w=="<"? a.v[d]<b.v[d]: a.v[d]>b.v[d]; }
    else n.push_back(atoi(w.c_str())); } return st.back(); }
PBT_TARGET("triplets",3){ vector<Row>& r=rows(); Row& w=r[c.draw(r.size())]; V3 e=eval(w.code); std::ostringstream t; t<<"("<<std::setw(2)<<e.v[0]<<","<<std::setw(2)<<e.v[1]<<","<<std::setw(2)<<e.v[2]<<" )"; c.note(w.code); c.nontrivial(string(w.code).size()>12);
  PBT_REQUIRE(c,w.val.v[0]==e.v[0]&&w.val.v[1]==e.v[1]&&w.val.v[2]==e.v[2],"S09:triplet","the triplet expression "<<w.code<<" (postfix) is ("<<w.val.v[0]<<","<<w.val.v[1]<<","<<w.val.v[2]<<"), expected ("<<e.v[0]<<","<<e.v[1]<<","<<e.v[2]<<")");
  PBT_REQUIRE(c,w.text==t.str(),"S09:print","the triplet prints as '"<<w.text<<"', expected '"<<t.str()<<"'"); }
PBT_TARGET("numbers",1){ vector<Num>& r=nums(); Num& n=r[c.draw(r.size())]; c.nontrivial(n.a!=n.b); int a=n.a,b=n.b;
  PBT_REQUIRE(c,n.mx==std::max(a,b)&&n.mn==std::min(a,b)&&n.lt==(a<b)&&n.gt==(a>b)&&n.kr==(a==b)&&n.ab==std::abs(a)&&n.kd==1,"S09:numbers","compile-time max, min, comparison, delta or absolute value wrong for "<<a<<" and "<<b); }
// ---- field types: index 4*volume+(0: the volume itself, 1..3: its faces)
struct Fld { V3 off, extra; int face; V3 stag; };
static Fld expect(int i){ int v=i/4-1, f=i%4-1; Fld r; r.face=f; for(int d=0;d<3;++d){ bool sv= d==v, sf= d==f; r.off.v[d]= (sv!=sf)? -1: 0; r.stag.v[d]=r.off.v[d]; r.extra.v[d]= f<0? sv: sf&&!sv; } return r; }
template<class D> static int dirno(){ return S::IsSameType<D,S::XDIR>::result? 0: S::IsSameType<D,S::YDIR>::result? 1: S::IsSameType<D,S::ZDIR>::result? 2: S::IsSameType<D,S::NODIR>::result? -1: -99; }
struct FOps { V3 off,extra,stag; int face, bc; bool extra_rt[8][3]; };
template<int I> static void field(pbt::Case& c){ typedef FT<I> F; typedef typename F::Location L; Fld e=expect(I); FOps o; o.off=read<typename L::Offset>(); o.extra=read<typename L::BCExtra>(); o.face=dirno<typename L::FaceDir>();
  o.stag.v[0]=SS::IndexStagger<F,S::XDIR>::value; o.stag.v[1]=SS::IndexStagger<F,S::YDIR>::value; o.stag.v[2]=SS::IndexStagger<F,S::ZDIR>::value; bool b[3]={c.boolean(),c.boolean(),c.boolean()}; SS::BoundaryCellInfo bi=SS::BoundaryCellInfo::build<F>(b[0],b[1],b[2]);
  for(int d=0;d<3;++d){ PBT_REQUIRE(c,o.off.v[d]==e.off.v[d]&&o.stag.v[d]==e.off.v[d],"S09:offset","field type "<<I<<" is offset by "<<o.off.v[d]<<" in direction "<<d);
    PBT_REQUIRE(c,o.extra.v[d]==e.extra.v[d],"S09:extra","field type "<<I<<" has "<<o.extra.v[d]<<" boundary cells in direction "<<d);
    PBT_REQUIRE(c,bi.has_bc(d)==b[d]&&bi.has_extra(d)==(b[d]?e.extra.v[d]:0)&&bi.has_extra()[d]==bi.has_extra(d),"S09:boundary","boundary information of field type "<<I<<" in direction "<<d); }
  PBT_REQUIRE(c,o.face==e.face,"S09:face","field type "<<I<<" names face direction "<<o.face<<" instead of "<<e.face); c.nontrivial(I>0); }
template<size_t... I> static void fieldsel(pbt::Case& c,int i,std::index_sequence<I...>){ void (*t[])(pbt::Case&)={&field<I>...}; t[i](c); }
PBT_TARGET("fields",1){ int i=(int)c.draw(16); c.note("field type "+std::to_string(i)); fieldsel(c,i,std::make_index_sequence<16>()); }
// ---- maps between volumes, faces and operators
template<class F,size_t... I> static int indexof(std::index_sequence<I...>){ int r=-1; bool same[]={std::is_same<F,FT<I> >::value...}; for(int i=0;i<16;++i) if(same[i]) r=i; return r; }
template<class F> static int ix(){ return indexof<F>(std::make_index_sequence<16>()); }
struct Op { int kind,src,dst; };
template<class O> static int kind(){ typedef typename O::type T; return std::is_same<T,S::Interpolant>::value?0: std::is_same<T,S::Gradient>::value?1: std::is_same<T,S::Divergence>::value?2: -1; }
template<class O> static Op op(){ Op r={kind<O>(),ix<typename O::SrcFieldType>(),ix<typename O::DestFieldType>()}; return r; }
template<int V> static void vol(pbt::Case& c){ typedef FT<4*V> F; typedef SS::FaceTypes<F> FA; typedef SS::BasicOpTypes<F> B; int base=4*V;
  int faces[]={ix<typename FA::XFace>(),ix<typename FA::YFace>(),ix<typename FA::ZFace>()}, back[]={ix<typename SS::VolType<typename FA::XFace>::VolField>(),ix<typename SS::VolType<typename FA::YFace>::VolField>(),ix<typename SS::VolType<typename FA::ZFace>::VolField>()}, back2[]={ix<typename SS::VolType<FT<4*V+1> >::VolField>(),ix<typename SS::VolType<FT<4*V+2> >::VolField>(),ix<typename SS::VolType<FT<4*V+3> >::VolField>()};
  Op ops[4][3]={{op<typename B::InterpC2FX>(),op<typename B::InterpC2FY>(),op<typename B::InterpC2FZ>()},{op<typename B::InterpF2CX>(),op<typename B::InterpF2CY>(),op<typename B::InterpF2CZ>()},{op<typename B::GradX>(),op<typename B::GradY>(),op<typename B::GradZ>()},{op<typename B::DivX>(),op<typename B::DivY>(),op<typename B::DivZ>()}};
  static const char* nm[]={"InterpC2F","InterpF2C","Grad","Div"}; int d=(int)c.draw(3), k=(int)c.draw(4); c.note(string(nm[k])+"XYZ"[d]+" of volume "+std::to_string(V)); c.nontrivial();
  PBT_REQUIRE(c,faces[d]==base+1+d,"S09:faces","the face type of volume "<<V<<" in direction "<<d<<" is field type "<<faces[d]); PBT_REQUIRE(c,back[d]==base&&back2[d]==base,"S09:volume","the volume type of that face is field type "<<back2[d]<<", expected "<<base);
  Op o=ops[k][d]; int kk= k<2?0:k-1, src= k==1||k==3? base+1+d: base, dst= k==1||k==3? base: base+1+d;
  PBT_REQUIRE(c,o.kind==kk&&o.src==src&&o.dst==dst,"S09:operator",nm[k]<<"XYZ"[d]<<" of volume "<<V<<" takes field type "<<o.src<<" to "<<o.dst<<" (kind "<<o.kind<<"), expected "<<src<<" to "<<dst<<" (kind "<<kk<<")"); }
PBT_TARGET("types",1){ switch(c.draw(4)){ case 0: vol<0>(c); break; case 1: vol<1>(c); break; case 2: vol<2>(c); break; default: vol<3>(c); } }
// ---- directions
PBT_TARGET("directions",1){ typedef SS::IndexTriplet<0,0,0> Z; int d=(int)c.draw(3); c.nontrivial(); typedef SS::UnitTriplet<S::XDIR>::type U0; typedef SS::UnitTriplet<S::YDIR>::type U1; typedef SS::UnitTriplet<S::ZDIR>::type U2; V3 u[]={read<U0>(),read<U1>(),read<U2>()};
  int nz[]={dirno<SS::GetNonzeroDir<U0>::DirT>(),dirno<SS::GetNonzeroDir<U1>::DirT>(),dirno<SS::GetNonzeroDir<U2>::DirT>()}, ng[]={dirno<SS::GetNonzeroDir<U0::Negate>::DirT>(),dirno<SS::GetNonzeroDir<U1::Negate>::DirT>(),dirno<SS::GetNonzeroDir<U2::Negate>::DirT>()}, val[]={S::XDIR::value,S::YDIR::value,S::ZDIR::value};
  for(int k=0;k<3;++k) PBT_REQUIRE(c,u[d].v[k]==(k==d),"S09:unit","unit triplet "<<d<<" has "<<u[d].v[k]<<" in direction "<<k);
  PBT_REQUIRE(c,nz[d]==d&&ng[d]==d&&val[d]==d&&dirno<SS::GetNonzeroDir<Z>::DirT>()==-1&&S::NODIR::value!=0&&S::NODIR::value!=1&&S::NODIR::value!=2,"S09:direction","direction of unit triplet "<<d);
  V3 none=read<SS::UnitTriplet<S::NODIR>::type>(); PBT_REQUIRE(c,!none.v[0]&&!none.v[1]&&!none.v[2],"S09:unit","unit triplet of no direction is not zero");
  int fd[]={dirno<S::InterpolantX::DirT>(),dirno<S::InterpolantY::DirT>(),dirno<S::InterpolantZ::DirT>(),dirno<S::GradientX::DirT>(),dirno<S::GradientY::DirT>(),dirno<S::GradientZ::DirT>()}; PBT_REQUIRE(c,fd[d]==d&&fd[3+d]==d,"S09:fd-direction","direction of the finite-difference operator types"); }
PBT_MAIN
