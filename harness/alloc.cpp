// Witness programs for the use of the configured allocators (C21).
#include "common.hpp"
#include "alloc.hpp"
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/asynchronous_state_machine.hpp>
typedef boost::intrusive_ptr< const sc::event_base > EP;
extern "C" void hook_use( const void * );

#if MOD == 1 || MOD == 4
#define CT( X ) void hook_ctor( X * ); hook_ctor( this );
struct E1 : sc::event< E1, AL( 2 ) > { E1() { CT( E1 ) } E1( const E1 & o ) : sc::event< E1, AL( 2 ) >( o ) { CT( E1 ) } ~E1() { void hook_dtor( void *, E1 * ) noexcept; hook_dtor( this, this ); } int a[ 5 ]; };
struct E2 : sc::event< E2, AL( 2 ) > {};
struct EB : sc::event< struct E3, AL( 2 ) > { int x; };
struct E3 : EB { char y[ 40 ]; E3( const E3 & o ) : EB( o ) { CT( E3 ) } E3() { CT( E3 ) } };
#endif

#if MOD == 1
struct A; struct B; struct C; struct D; struct F; struct G; struct I; struct J;
struct M : sc::state_machine< M, A, AL( 1 ) > { void act( const E1 & ); using sc::state_machine< M, A, AL( 1 ) >::post_event; };
struct A : sc::simple_state< A, M, mpl::list< B, sc::shallow_history< C > >, sc::has_full_history >
{
  typedef mpl::list< sc::custom_reaction< E1 >, sc::deferral< E2 >, sc::transition< E3, F > > reactions;
  sc::result react( const E1 & e );
};
struct B : sc::state< B, A > { B( my_context c ) : my_base( c ) { post_event( EP( new E2 ) ); } typedef sc::transition< E1, I > reactions; };
struct I : sc::state< I, A > { I( my_context c ) : my_base( c ) {} typedef sc::termination< E2 > reactions; void exit(); int z; };
struct C : sc::simple_state< C, A::orthogonal< 1 >, G > { typedef sc::transition< E1, J > reactions; };
struct G : sc::simple_state< G, C > {};
struct JB : sc::simple_state< J, A::orthogonal< 1 > > { char pad[ 24 ]; };
struct J : JB { int more; typedef sc::deferral< E1 > reactions; };
struct F : sc::state< F, M, mpl::list< sc::deep_history< D > >, sc::has_deep_history > { F( my_context c ) : my_base( c ) {} typedef sc::transition< E1, A, M, &M::act > reactions; };
struct D : sc::simple_state< D, F > {};
ENTRY( run )( M & m )
{
  m.initiate(); E1 e; m.process_event( e ); m.post_event( EP( new E1 ) ); m.post_event( e ); m.process_event( E3() ); m.terminate();
}
ENTRY( mdtor )( M & m ) { m.~M(); }
sc::result A::react( const E1 & e ) { post_event( e ); clear_shallow_history< A, 1 >(); return defer_event(); }
#endif

#if MOD == 1
// the life of one event object
ENTRY( ref_E1 )() { E1 e; EP p( e.intrusive_from_this() ); hook_use( p.get() ); }
ENTRY( ref_E2 )() { E2 e; EP p( e.intrusive_from_this() ); hook_use( p.get() ); }
ENTRY( ref_E3 )() { E3 e; EP p( e.intrusive_from_this() ); hook_use( p.get() ); }
ENTRY( new_E1 )() { EP p( new E1 ); hook_use( p.get() ); EP q( p->intrusive_from_this() ); p = 0; hook_use( q.get() ); }
ENTRY( new_E2 )() { EP p( new E2 ); hook_use( p.get() ); EP q( p ); p = 0; hook_use( q.get() ); }
ENTRY( new_E3 )() { EP p( new E3 ); hook_use( p.get() ); EP q( p->intrusive_from_this() ); p = 0; hook_use( q.get() ); }
#endif

#if MOD == 2
typedef sc::fifo_worker< AL( 3 ) > W;
ENTRY( queue )( W & w, W::work_item & i ) { w.queue_work_item( i ); }
ENTRY( queue_const )( W & w, const W::work_item & i ) { w.queue_work_item( i ); }
ENTRY( terminate )( W & w ) { w.terminate(); }
extern "C" unsigned long entry_call( W & w, unsigned long n ) { return w( n ); }
extern "C" bool entry_terminated( W & w ) { return w.terminated(); }
ENTRY( wdtor )( W & w ) { w.~W(); }
#endif

#if MOD == 3
struct Work
{
  template< class Fn, class A > Work( Fn f, const A & a ) { void hook_workalloc( const A & ); hook_workalloc( a ); Fn g( f ); g(); }
};
extern "C" void hook_queue( void *, Work & );
struct Worker
{
  typedef Work work_item;
  Worker( bool = false ) {}
  void queue_work_item( Work & w ) { hook_queue( this, w ); }
  void queue_work_item( const Work & w ) { hook_queue( this, const_cast< Work & >( w ) ); }
  void terminate() {}
  bool terminated() const { return false; }
  unsigned long operator()( unsigned long = 0 ) { return 0; }
};
typedef sc::fifo_scheduler< Worker, AL( 4 ) > S;
typedef S::processor_handle H;
struct P : sc::event_processor< S >
{
  P( my_context x ) : sc::event_processor< S >( x ) {}
  P( my_context x, long ) : sc::event_processor< S >( x ) {}
  P( my_context x, long, long ) : sc::event_processor< S >( x ) {}
  P( my_context x, long, long, long ) : sc::event_processor< S >( x ) {}
  P( my_context x, long, long, long, long ) : sc::event_processor< S >( x ) {}
  P( my_context x, long, long, long, long, long ) : sc::event_processor< S >( x ) {}
  P( my_context x, long, long, long, long, long, long ) : sc::event_processor< S >( x ) {}
  virtual void initiate_impl() {} virtual void process_event_impl( const sc::event_base & ) {} virtual void terminate_impl() {}
};
ENTRY( all )( S & s, H & h, EP & e )
{
  h = s.create_processor< P >();
  h = s.create_processor< P >( 1l );
  h = s.create_processor< P >( 1l, 2l );
  h = s.create_processor< P >( 1l, 2l, 3l );
  h = s.create_processor< P >( 1l, 2l, 3l, 4l );
  h = s.create_processor< P >( 1l, 2l, 3l, 4l, 5l );
  h = s.create_processor< P >( 1l, 2l, 3l, 4l, 5l, 6l );
  s.initiate_processor( h ); s.terminate_processor( h ); s.queue_event( h, e ); s.destroy_processor( h );
  s.terminate();
}
ENTRY( sdtor )( S & s ) { s.~S(); }
#endif

#if MOD == 4
typedef sc::fifo_scheduler<> S;
struct A; struct B;
struct M : sc::asynchronous_state_machine< M, A, S, AL( 1 ) > { M( my_context c ) : my_base( c ) {} static void make( void * p, my_context & c ) { ::new( p ) M( c ); } };
struct A : sc::simple_state< A, M, B, sc::has_full_history > { typedef mpl::list< sc::deferral< E2 >, sc::transition< E1, A >, sc::termination< E3 > > reactions; };
struct B : sc::simple_state< B, A > {};
extern "C" void hook_keep( const void * );
ENTRY( make )() { hook_keep( reinterpret_cast< const void * >( &M::make ) ); }
ENTRY( initiate )( M & m ) { static_cast< sc::event_processor< S > & >( m ).initiate(); }
ENTRY( terminate )( M & m ) { static_cast< sc::event_processor< S > & >( m ).terminate(); }
ENTRY( process )( M & m, const sc::event_base & e ) { static_cast< sc::event_processor< S > & >( m ).process_event( e ); }
ENTRY( mdtor )( M & m ) { m.~M(); }
#endif
