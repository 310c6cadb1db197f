// An allocator that shows the analysis which allocator (Tag), which type and
// how many objects are asked for.
#ifndef VERIF_ALLOC_HPP
#define VERIF_ALLOC_HPP
#include <cstddef>
template< int Tag, class T > struct TA
{
  typedef T value_type;
  template< class U > struct rebind { typedef TA< Tag, U > other; };
  TA() noexcept {}
  template< class U > TA( const TA< Tag, U > & ) noexcept {}
  T * allocate( std::size_t n, const void * = 0 ) { void * hook_alloc( TA *, unsigned long ); return static_cast< T * >( hook_alloc( this, n ) ); }
  void deallocate( T * p, std::size_t n ) { void hook_dealloc( TA *, void *, unsigned long ) noexcept; hook_dealloc( this, p, n ); }
};
template< int Tag, class T, class U > bool operator==( const TA< Tag, T > &, const TA< Tag, U > & ) { return true; }
template< int Tag, class T, class U > bool operator!=( const TA< Tag, T > &, const TA< Tag, U > & ) { return false; }
#ifdef USE_STD
#define AL( n ) std::allocator< sc::none >
#else
#define AL( n ) TA< n, sc::none >
#endif
#undef ALLOC
#define ALLOC AL( 1 )
#endif
