// Witness program for state queries (C14).
#include "common.hpp"
struct Iface { virtual void f() const; long x; };
struct A; struct B; struct C; struct B1; struct D;
struct M : sc::state_machine< M, A > {};
struct A : sc::simple_state< A, M, boost::mpl::list< B, C > > {};
struct B : sc::simple_state< B, A::orthogonal< 0 >, B1 > {};
struct C : Iface, sc::simple_state< C, A::orthogonal< 1 > > {};
struct B1 : sc::simple_state< B1, B >, Iface {};
struct D : sc::state< D, A::orthogonal< 1 > > { D( my_context c ) : my_base( c ) {} };
#define Q( n, T ) \
  extern "C" const void * entry_castp_ ## n( const M & m ) { return m.state_cast< const T * >(); } \
  extern "C" const void * entry_castr_ ## n( const M & m ) { return &m.state_cast< const T & >(); } \
  extern "C" const void * entry_downp_ ## n( const M & m ) { return m.state_downcast< const T * >(); } \
  extern "C" const void * entry_downr_ ## n( const M & m ) { return &m.state_downcast< const T & >(); }
Q( A, A ) Q( B, B ) Q( C, C ) Q( B1, B1 ) Q( D, D )
extern "C" const void * entry_castp_Iface( const M & m ) { return m.state_cast< const Iface * >(); }
extern "C" const void * entry_castr_Iface( const M & m ) { return &m.state_cast< const Iface & >(); }
extern "C" void hook_visit( const void * );
ENTRY( iter_pre )( const M & m ) { for ( M::state_iterator i = m.state_begin(); i != m.state_end(); ++i ) hook_visit( &*i ); }
ENTRY( iter_post )( const M & m ) { for ( M::state_iterator i = m.state_begin(); !( i == m.state_end() ); i++ ) hook_visit( i.operator->() ); }
ENTRY( iter_old )( const M & m ) { for ( M::state_iterator i = m.state_begin(); i != m.state_end(); ) hook_visit( &*i++ ); }
extern "C" bool entry_terminated( const M & m ) { return m.terminated(); }
