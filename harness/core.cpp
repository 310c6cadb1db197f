// Witness program for the machine-level rules: instantiates state_machine,
// simple_state, node_state, leaf_state, state and all reaction templates with
// user code that is declared but not defined (hook_*).
#include "common.hpp"

struct E1 : sc::event< E1 > { int payload; };
struct E2 : sc::event< E2 > {};

struct A; struct B; struct C; struct D; struct B1; struct Other;
struct M : sc::state_machine< M, A, std::allocator< sc::none >, XLATE >
{
  void unconsumed_event( const sc::event_base & e ) { hook_unconsumed( this, &e ); }
  M() {}
  ~M() { hook_dtor_machine( this ); }
  using sc::state_machine< M, A, std::allocator< sc::none >, XLATE >::post_event;
};

// A: two orthogonal regions, full history
struct A : sc::simple_state< A, M, boost::mpl::list< B, C >, sc::has_shallow_history >
{
  STATE_BODY( A )
  typedef boost::mpl::list< sc::custom_reaction< E1 >, sc::termination< E2 > > reactions;
  sc::result react( const E1 & e ) { HOOK_REACT( A, e ); }
};
struct B : sc::simple_state< B, A::orthogonal< 0 >, B1 >
{
  STATE_BODY( B )
};
struct B1 : sc::simple_state< B1, B >
{
  STATE_BODY( B1 )
  typedef boost::mpl::list< sc::custom_reaction< E1 >, sc::deferral< E2 > > reactions;
  sc::result react( const E1 & e ) { HOOK_REACT( B1, e ); }
};
struct C : sc::simple_state< C, A::orthogonal< 1 > >
{
  STATE_BODY( C )
};
struct Other : sc::simple_state< Other, M > { STATE_BODY( Other ) };

ENTRY( ctor )( void * mem ) { new ( mem ) M(); }
ENTRY( dtor )( M & m ) { m.M::~M(); }
ENTRY( initiate )( M & m ) { m.initiate(); }
ENTRY( terminate )( M & m ) { m.terminate(); }
ENTRY( process_event )( M & m, const sc::event_base & e ) { m.process_event( e ); }
ENTRY( post_event_ptr )( M & m, const M::event_base_ptr_type & e ) { m.post_event( e ); }
ENTRY( post_event_ref )( M & m, const sc::event_base & e ) { m.post_event( e ); }
ENTRY( state_post_event_ptr )( B1 & s, const M::event_base_ptr_type & e ) { s.post_event( e ); }
ENTRY( state_post_event_ref )( B1 & s, const sc::event_base & e ) { s.post_event( e ); }
extern "C" bool entry_terminated( const M & m ) { return m.terminated(); }
extern "C" const sc::event_base * entry_triggering_event( const M & m ) { return m.triggering_event(); }
extern "C" const sc::event_base * entry_state_triggering_event( const B1 & m ) { return m.triggering_event(); }
extern "C" int entry_react_A( A & s, const sc::event_base & e, sc::detail::rtti_policy::id_type t ) { return s.A::react_impl( e, t ); }
extern "C" int entry_react_B( B & s, const sc::event_base & e, sc::detail::rtti_policy::id_type t ) { return s.B::react_impl( e, t ); }
extern "C" int entry_react_B1( B1 & s, const sc::event_base & e, sc::detail::rtti_policy::id_type t ) { return s.B1::react_impl( e, t ); }
