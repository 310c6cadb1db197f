#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/mpl/list.hpp>
#include <new>
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
#ifndef ALLOC
#define ALLOC std::allocator< sc::none >
#endif
#ifndef XLATE
#define XLATE sc::exception_translator<>
#endif
extern "C" void hook_unconsumed( void *, const void * );
extern "C" void hook_dtor_machine( void * ) noexcept;
extern "C" int hook_result();
#define ENTRY( n ) extern "C" void entry_ ## n
#define STATE_HOOKS( X ) \
  extern "C" void hook_enter_ ## X( void * ); \
  extern "C" void hook_exit_ ## X( void * ); \
  extern "C" void hook_dtor_ ## X( void * ) noexcept;
// hooks are declared at block scope so that no prior declarations are needed
#define STATE_BODY( X ) \
  X() { void hook_enter( void *, X * ); hook_enter( this, this ); } \
  ~X() { void hook_dtor( void *, X * ) noexcept; hook_dtor( this, this ); } \
  void exit() { void hook_exit( void *, X * ); hook_exit( this, this ); }
#define HOOK_REACT( X, e ) \
  sc::detail::reaction_result hook_react( X *, const void * ); \
  return sc::detail::result_utility::make_result( hook_react( this, &e ) )
#endif
