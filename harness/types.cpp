// Witness program for type identities, events and their reference counts
// (C15, C16, C23).
#include "common.hpp"
typedef sc::detail::rtti_policy::id_type id_type;
typedef boost::intrusive_ptr< const sc::event_base > EP;
extern "C" void hook_copy( void *, const void * );
extern "C" void hook_copied( void *, const void * ) noexcept;
extern "C" void hook_dtor_event( void * ) noexcept;
extern "C" void hook_construct( void * );

// plain event, event with a payload, event with a user supplied copy
// constructor that may throw, event with bases
struct Mix { virtual ~Mix() {} long m; };
namespace x { struct E0 : sc::event< E0 > { long payload; }; }
struct E0 : sc::event< E0 > { long payload; };
struct E1 : sc::event< E1 >
{
  E1() {}
  E1( const E1 & o ) : sc::event< E1 >( o ), payload( o.payload ) { hook_copy( this, &o ); }
  E1 & operator=( const E1 & o ) { sc::event< E1 >::operator=( o ); payload = o.payload; return *this; }
  ~E1() { hook_dtor_event( this ); }
  long payload;
};
struct E2 : sc::event< E2 >, Mix { E2() {} long payload; };
struct E3 : Mix, sc::event< E3 > { E3() {} long payload; };
template< int n > struct ET : sc::event< ET< n > > { long a[ n + 1 ]; };
struct Outer { struct E0 : sc::event< E0 > { long payload; }; };
template< class M > struct EBase : sc::event< M > { long b; };
struct E4 : EBase< E4 > {};
struct E5 : EBase< E5 > {};

struct S0; struct S1; struct S2; struct S3; struct S4;
struct M : sc::state_machine< M, S0 > {};
struct S0 : sc::simple_state< S0, M, mpl::list< S1, S3 >, sc::has_full_history > {};
struct S1 : sc::simple_state< S1, S0::orthogonal< 0 >, S2, sc::has_full_history > {};
struct S2 : sc::simple_state< S2, S1 > {};
struct S3 : sc::state< S3, S0::orthogonal< 1 >, S4 > { S3( my_context c ) : my_base( c ) {} static S3 * make( void * ); };
struct S4 : sc::state< S4, S3 > { S4( my_context c ) : my_base( c ) {} static S4 * make( void * ); };
extern "C" S0::inner_context_ptr_type & hook_ctx0();
extern "C" S3::inner_context_ptr_type & hook_ctx3();
S3 * S3::make( void * m ) { return ::new ( m ) S3( my_context( hook_ctx0() ) ); }
S4 * S4::make( void * m ) { return ::new ( m ) S4( my_context( hook_ctx3() ) ); }
template< int n > struct ST : sc::simple_state< ST< n >, M > {};

extern "C" long hook_payload();
extern "C" void hook_use();
#define EV( n, T, FIELD ) \
  extern "C" id_type entry_evid_ ## n( void * m ) { T * e = new ( m ) T; sc::event_base & b = *e; return b.dynamic_type(); } \
  extern "C" id_type entry_cpid_ ## n( void * m, void * k ) { T * e = new ( m ) T; T * c = new ( k ) T( *e ); sc::event_base & b = *c; return b.dynamic_type(); } \
  extern "C" id_type entry_evst_ ## n() { return T::static_type(); } \
  ENTRY( life_ ## n )( EP & r ) { { EP p( new T ); hook_use(); } hook_use(); } \
  ENTRY( clone_ ## n )( void * m, EP & r ) \
  { T * e = new ( m ) T; e->FIELD = hook_payload(); const sc::event_base & b = *e; r = b.intrusive_from_this(); }
EV( xE0, x::E0, payload ) EV( E0, E0, payload ) EV( E1, E1, payload ) EV( E2, E2, payload ) EV( E3, E3, payload )
EV( ET0, ET< 0 >, a[ 0 ] ) EV( ET1, ET< 1 >, a[ 1 ] ) EV( OE0, Outer::E0, payload ) EV( E4, E4, b ) EV( E5, E5, b )
ENTRY( assign_E1 )( E1 & a, const E1 & b ) { a = b; }
ENTRY( assign_E0 )( x::E0 & a, const x::E0 & b ) { a = b; }
ENTRY( copy_E0 )( void * m, const x::E0 & b ) { new ( m ) x::E0( b ); }
ENTRY( copy_E1 )( void * m, const E1 & b ) { new ( m ) E1( b ); }
ENTRY( make_E1 )( void * m ) { new ( m ) E1; }
ENTRY( heap_E1 )( EP & r ) { r = EP( new E1 ); }
ENTRY( addref )( const sc::event_base * e ) { intrusive_ptr_add_ref( e ); }
ENTRY( release )( const sc::event_base * e ) { intrusive_ptr_release( e ); }
ENTRY( from_this )( const sc::event_base & e, EP & r ) { r = e.intrusive_from_this(); }

typedef sc::detail::state_base< std::allocator< sc::none >, sc::detail::rtti_policy > SB;
#define STT( n, T, ... ) \
  extern "C" id_type entry_stid_ ## n( void * m ) { T * s = __VA_ARGS__; SB & b = *s; return b.dynamic_type(); } \
  extern "C" id_type entry_stst_ ## n() { return T::static_type(); }
STT( S0, S0, ::new ( m ) S0 ) STT( S1, S1, ::new ( m ) S1 ) STT( S2, S2, ::new ( m ) S2 ) STT( ST0, ST< 0 >, ::new ( m ) ST< 0 > ) STT( ST1, ST< 1 >, ::new ( m ) ST< 1 > )
STT( S3, S3, S3::make( m ) ) STT( S4, S4, S4::make( m ) )

// comparisons
#ifdef BOOST_STATECHART_USE_NATIVE_RTTI
#define ARGS const std::type_info & ta, const std::type_info & tb
#define MK id_type a( ta ), b( tb );
#else
#define ARGS const void * ta, const void * tb
#define MK id_type a = ta, b = tb;
#endif
extern "C" bool entry_cmp_eq( ARGS ) { MK return a == b; }
extern "C" bool entry_cmp_ne( ARGS ) { MK return a != b; }
extern "C" bool entry_cmp_lt( ARGS ) { MK return a < b; }
extern "C" bool entry_cmp_gt( ARGS ) { MK return a > b; }
extern "C" bool entry_cmp_le( ARGS ) { MK return a <= b; }
extern "C" bool entry_cmp_ge( ARGS ) { MK return a >= b; }
// the order of history keys, as the history maps use it
typedef sc::detail::history_key< sc::detail::rtti_policy > Key;
extern "C" bool entry_key_lt( const Key & a, const Key & b ) { std::less< Key > l; return l( a, b ); }
extern "C" id_type entry_key_type_S1( Key * m ) { new ( m ) Key( Key::make_history_key< S1 >() ); return m->history_context_type(); }
extern "C" id_type entry_key_type_S3( Key * m ) { new ( m ) Key( Key::make_history_key< S3 >() ); return m->history_context_type(); }

#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
struct X { int v; };
#define CUST( n, T ) \
  extern "C" const X * entry_cget_ ## n() { return T::custom_static_type_ptr< X >(); } \
  ENTRY( cset_ ## n )( const X * p ) { T::custom_static_type_ptr( p ); } \
  extern "C" const X * entry_csetget_ ## n( const X * p ) { T::custom_static_type_ptr( p ); return T::custom_static_type_ptr< X >(); }
CUST( E0, E0 ) CUST( E1, E1 ) CUST( E2, E2 ) CUST( S0, S0 ) CUST( S4, S4 ) CUST( ST1, ST< 1 > )
#define DCUST( n, T ) extern "C" const X * entry_cdyn_ ## n( void * m, const X * p ) \
  { T::custom_static_type_ptr( p ); T * e = ::new ( m ) T; return e->custom_dynamic_type_ptr< X >(); }
DCUST( E0, E0 ) DCUST( E1, E1 ) DCUST( E2, E2 ) DCUST( E3, E3 ) DCUST( S0, S0 ) DCUST( ST1, ST< 1 > )
#define OCUST( n, T, U ) extern "C" const X * entry_coth_ ## n( const X * p, const X * q ) \
  { T::custom_static_type_ptr( q ); U::custom_static_type_ptr( p ); return T::custom_static_type_ptr< X >(); }
OCUST( E0E1, E0, E1 ) OCUST( E1E0, E1, E0 ) OCUST( S0E1, S0, E1 ) OCUST( E2S4, E2, S4 ) OCUST( E4E5, E4, E5 ) OCUST( ST0ST1, ST< 0 >, ST< 1 > )
#endif
