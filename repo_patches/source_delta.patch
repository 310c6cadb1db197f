From 2f76040e3917efc36c0654acfc8b59276afc8200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 1/2] fix: let transition actions be members of the source
 state with relaxed transition context

With BOOST_STATECHART_RELAX_TRANSITION_CONTEXT the action of a transition may be
a member of the transition source itself, but context_ptr<>() only looks at
outer contexts, so that such transitions did not compile.
---
 include/boost/statechart/simple_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index eb1d438..93153b1 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -768,7 +768,7 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       else
       {
         typename real_transition_context_type::inner_context_ptr_type
-          pTransitionContext = context_ptr< real_transition_context_type >();
+          pTransitionContext( &context< real_transition_context_type >() );
         outermostContextBase.terminate_as_part_of_transit(
           *pTransitionContext );
         transitionAction( *pTransitionContext );
-- 
2.43.0


From fcdeccaf918b05845184f472074be2de8cc452ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 2/2] fix: do not register an event processor whose constructor
 throws

The holder was inserted into the processor set before the processor was
constructed. When the constructor threw, the handle kept referring to a holder
without a processor, so that later requests for it dereferenced a null pointer
instead of being discarded.
---
 include/boost/statechart/processor_container.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index fc61656..27ef3b4 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -311,8 +311,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1 >
@@ -320,8 +320,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2 >
@@ -329,8 +329,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2, typename Arg3 >
@@ -338,8 +338,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2, Arg3 arg3 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -350,8 +350,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -362,8 +362,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -374,8 +374,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5, Arg6 arg6 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5, arg6 ) );
+      processorSet_.insert( pProcessor );
     }
 
     void destroy_processor_impl( const processor_handle & processor )
-- 
2.43.0

