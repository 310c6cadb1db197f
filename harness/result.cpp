// Witness program for the protocol of reaction results (C17, debug builds).
#include "common.hpp"
typedef sc::result R;
typedef sc::detail::reaction_result V;
typedef sc::detail::result_utility U;
static R through( R r ) { return r; }
static R through2( const R & r ) { return R( r ); }
// the value arrives unchanged and without complaint
extern "C" int entry_v_direct( V v ) { return U::get_result( U::make_result( v ) ); }
extern "C" int entry_v_named( V v ) { R a( U::make_result( v ) ); return U::get_result( a ); }
extern "C" int entry_v_copy( V v ) { R a( U::make_result( v ) ); R b( a ); return U::get_result( b ); }
extern "C" int entry_v_copy2( V v ) { R a( U::make_result( v ) ); R b( a ); R c( b ); R d( c ); return U::get_result( d ); }
extern "C" int entry_v_param( V v ) { return U::get_result( through( U::make_result( v ) ) ); }
extern "C" int entry_v_const( V v ) { const R a( U::make_result( v ) ); return U::get_result( through2( a ) ); }
// must be noticed: the result is lost
extern "C" void entry_a_dropped( V v ) { U::make_result( v ); }
extern "C" void entry_a_unused( V v ) { R a( U::make_result( v ) ); }
extern "C" void entry_a_copy_unused( V v ) { R a( U::make_result( v ) ); R b( a ); }
extern "C" void entry_a_param_unused( V v ) { through( U::make_result( v ) ); }
extern "C" void entry_a_second_lost( V v ) { R a( U::make_result( v ) ); U::get_result( U::make_result( v ) ); }
// must be noticed: the result is used more than once
extern "C" int entry_a_used_twice( V v ) { R a( U::make_result( v ) ); U::get_result( a ); return U::get_result( a ); }
extern "C" int entry_a_source_used( V v ) { R a( U::make_result( v ) ); R b( a ); U::get_result( b ); return U::get_result( a ); }
extern "C" int entry_a_source_copied( V v ) { R a( U::make_result( v ) ); R b( a ); R c( a ); U::get_result( b ); return U::get_result( c ); }
extern "C" int entry_a_copied_after_use( V v ) { R a( U::make_result( v ) ); U::get_result( a ); R b( a ); return U::get_result( b ); }
extern "C" int entry_a_copied_twice( V v ) { R a( U::make_result( v ) ); R b( a ); U::get_result( b ); R c( b ); return U::get_result( c ); }
// what state reaction functions yield is subject to it
struct M; struct A;
struct M : sc::state_machine< M, A > {};
struct A : sc::simple_state< A, M > {};
extern "C" void entry_a_discard( A & a ) { a.discard_event(); }
extern "C" void entry_a_forward( A & a ) { a.forward_event(); }
extern "C" void entry_a_defer( A & a ) { a.defer_event(); }
extern "C" int entry_d_discard( A & a ) { return U::get_result( a.discard_event() ); }
extern "C" int entry_d_forward( A & a ) { return U::get_result( a.forward_event() ); }
extern "C" int entry_d_defer( A & a ) { return U::get_result( a.defer_event() ); }
