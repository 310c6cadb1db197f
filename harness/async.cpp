// Witness program for fifo_scheduler / processor_container / event_processor /
// asynchronous_state_machine (C20, C15) with a worker that hands every work
// item to the analysis.
#include "common.hpp"
#include <boost/function/function0.hpp>
#include <boost/bind.hpp>
#include <boost/ref.hpp>
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/asynchronous_state_machine.hpp>

struct Item { virtual void run() = 0; virtual ~Item() {} };
template< class F > struct ItemOf : Item
{
  F f;
  ItemOf( const F & x ) : f( x ) {}
  virtual void run() { f(); }
};
struct Work
{
  Item * p;
  template< class F, class A > Work( F f, const A & ) : p( new ItemOf< F >( f ) ) {}
};
extern "C" void hook_queue( void *, Item * );
extern "C" Item * hook_captured();
extern "C" void hook_phase2();
extern "C" void hook_wterminate( void * );
struct Worker
{
  typedef Work work_item;
  Worker( bool = false ) {}
  void queue_work_item( Work & w ) { hook_queue( this, w.p ); }
  void queue_work_item( const Work & w ) { hook_queue( this, w.p ); }
  void terminate() { hook_wterminate( this ); }
  bool terminated() const { return false; }
  unsigned long operator()( unsigned long = 0 ) { return 0; }
};
typedef sc::fifo_scheduler< Worker > S;
typedef S::processor_handle H;
typedef boost::intrusive_ptr< const sc::event_base > EP;

extern "C" void hook_construct( int n, void * self, const void * sched, const H * h, long, long, long, long, long, long );
#define PROC_BODY \
  virtual void initiate_impl() {} virtual void process_event_impl( const sc::event_base & ) {} virtual void terminate_impl() {}
#define CONS( n, a, b, c, d, e, f ) { H h = my_handle(); hook_construct( n, this, &my_scheduler(), &h, a, b, c, d, e, f ); }
struct P : sc::event_processor< S >
{
  P( my_context x ) : sc::event_processor< S >( x ) CONS( 0, 0, 0, 0, 0, 0, 0 )
  P( my_context x, long a ) : sc::event_processor< S >( x ) CONS( 1, a, 0, 0, 0, 0, 0 )
  P( my_context x, long a, long b ) : sc::event_processor< S >( x ) CONS( 2, a, b, 0, 0, 0, 0 )
  P( my_context x, long a, long b, long c ) : sc::event_processor< S >( x ) CONS( 3, a, b, c, 0, 0, 0 )
  P( my_context x, long a, long b, long c, long d ) : sc::event_processor< S >( x ) CONS( 4, a, b, c, d, 0, 0 )
  P( my_context x, long a, long b, long c, long d, long e ) : sc::event_processor< S >( x ) CONS( 5, a, b, c, d, e, 0 )
  P( my_context x, long a, long b, long c, long d, long e, long f ) : sc::event_processor< S >( x ) CONS( 6, a, b, c, d, e, f )
  PROC_BODY
};
struct X {};
struct PR : sc::event_processor< S >
{
  PR( my_context x, X & a ) : sc::event_processor< S >( x ) CONS( 1, (long)&a, 0, 0, 0, 0, 0 )
  PR( my_context x, X & a, long b ) : sc::event_processor< S >( x ) CONS( 2, (long)&a, b, 0, 0, 0, 0 )
  PROC_BODY
};
#define RUN hook_phase2(); Item * i = hook_captured(); i->run(); delete i;
ENTRY( create0 )( S & s, H & r ) { r = s.create_processor< P >(); RUN }
ENTRY( create1 )( S & s, H & r, long a ) { r = s.create_processor< P >( a ); RUN }
ENTRY( create2 )( S & s, H & r, long a, long b ) { r = s.create_processor< P >( a, b ); RUN }
ENTRY( create3 )( S & s, H & r, long a, long b, long c ) { r = s.create_processor< P >( a, b, c ); RUN }
ENTRY( create4 )( S & s, H & r, long a, long b, long c, long d ) { r = s.create_processor< P >( a, b, c, d ); RUN }
ENTRY( create5 )( S & s, H & r, long a, long b, long c, long d, long e ) { r = s.create_processor< P >( a, b, c, d, e ); RUN }
ENTRY( create6 )( S & s, H & r, long a, long b, long c, long d, long e, long f ) { r = s.create_processor< P >( a, b, c, d, e, f ); RUN }
ENTRY( createR1 )( S & s, H & r, X & x ) { r = s.create_processor< PR >( boost::ref( x ) ); RUN }
ENTRY( createR2 )( S & s, H & r, X & x, long b ) { r = s.create_processor< PR >( boost::ref( x ), b ); RUN }
ENTRY( initiate )( S & s, const H & h ) { s.initiate_processor( h ); RUN }
ENTRY( terminate )( S & s, const H & h ) { s.terminate_processor( h ); RUN }
ENTRY( destroy )( S & s, const H & h ) { s.destroy_processor( h ); RUN }
ENTRY( queue_event )( S & s, const H & h, const EP & e ) { s.queue_event( h, e ); RUN }
ENTRY( queue_item )( S & s, Work & w ) { s.queue_work_item( w ); }
ENTRY( queue_item_const )( S & s, const Work & w ) { s.queue_work_item( w ); }
ENTRY( stop )( S & s ) { s.terminate(); }
ENTRY( sdtor )( S & s ) { s.~S(); }

struct AI;
struct AM : sc::asynchronous_state_machine< AM, AI, S >
{
  AM( my_context c ) : my_base( c ) { H h = my_handle(); hook_construct( 0, this, &my_scheduler(), &h, 0, 0, 0, 0, 0, 0 ); }
};
struct AI : sc::simple_state< AI, AM > { };
ENTRY( createA )( S & s, H & r ) { r = s.create_processor< AM >(); RUN }
ENTRY( am_initiate )( AM & m ) { static_cast< sc::event_processor< S > & >( m ).initiate(); }
ENTRY( am_terminate )( AM & m ) { static_cast< sc::event_processor< S > & >( m ).terminate(); }
ENTRY( am_terminate2 )( AM & m ) { m.terminate(); }
ENTRY( am_process )( AM & m, const sc::event_base & e ) { static_cast< sc::event_processor< S > & >( m ).process_event( e ); }
extern "C" const void * entry_am_base( AM & m ) { return static_cast< sc::event_processor< S > * >( &m ); }
