// Witness program for fifo_worker / fifo_scheduler (C18, C19).
#include "common.hpp"
#include <boost/statechart/detail/memory.hpp>
#include <boost/function/function0.hpp>
#include <boost/bind.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
typedef sc::fifo_worker<> W;
typedef sc::fifo_scheduler<> S;
extern "C" void hook_phase2();
extern "C" void hook_run_captured();
ENTRY( queue )( W & w, W::work_item & i ) { w.queue_work_item( i ); }
ENTRY( queue_const )( W & w, const W::work_item & i ) { w.queue_work_item( i ); }
ENTRY( terminate )( W & w ) { w.terminate(); hook_phase2(); hook_run_captured(); }
extern "C" unsigned long entry_run( W & w, unsigned long n ) { return w( n ); }
extern "C" unsigned long entry_run0( W & w ) { return w(); }
extern "C" bool entry_terminated( W & w ) { return w.terminated(); }
ENTRY( ctor )( void * m, bool b )
{
#ifdef BOOST_HAS_THREADS
  new ( m ) W( b );
#else
  new ( m ) W();
#endif
}
ENTRY( s_ctor )( void * m, bool b )
{
#ifdef BOOST_HAS_THREADS
  new ( m ) S( b );
#else
  new ( m ) S();
#endif
}
ENTRY( s_queue )( S & s, S::work_item & i ) { s.queue_work_item( i ); }
ENTRY( s_queue_const )( S & s, const S::work_item & i ) { s.queue_work_item( i ); }
ENTRY( s_terminate )( S & s ) { s.terminate(); hook_phase2(); hook_run_captured(); }
extern "C" unsigned long entry_s_run( S & s, unsigned long n ) { return s( n ); }
extern "C" unsigned long entry_s_run0( S & s ) { return s(); }
extern "C" bool entry_s_terminated( S & s ) { return s.terminated(); }
