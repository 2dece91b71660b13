From 218946085453bd166b90ceb1c3d73ff19507fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 01/21] fix: give each strategy its own default event queue

The default queue was cached in the (shared, static) configuration, so all
machines with a default strategy took each other's events off one queue and
processed them with the wrong transition table.
---
 .../statemachine/strategy/EventProcessingStrategyFactory.java  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 458d3b7..184b5a8 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -138,7 +138,8 @@ public class EventProcessingStrategyFactory {
 
     Queue<EventMachinePair<T, S>> getEventQueue() {
       if (eventQueue == null) {
-        eventQueue = new ConcurrentLinkedQueue<>();
+        // Not kept: strategies created from the same configuration must not share their events
+        return new ConcurrentLinkedQueue<>();
       }
       return eventQueue;
     }
-- 
2.43.0


From b4e0f6ea3dc04645c8dfce4b35187141f97cf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 02/21] fix: do not share the default strategy between machines
 of one builder

The second build() overwrote the transition table of the first machine.
---
 .../com/webotech/statemachine/GenericStateMachine.java     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 51b54bb..6cb9feb 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -364,11 +364,12 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
 
     public GenericStateMachine<T, S> build() {
-      if (eventProcessingStrategy == null) {
-        eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy();
+      EventProcessingStrategy<T, S> strategy = eventProcessingStrategy;
+      if (strategy == null) {
+        strategy = EventProcessingStrategyFactory.createDefaultStrategy();
       }
       return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
-          eventProcessingStrategy);
+          strategy);
     }
   }
 }
-- 
2.43.0


From 2f7f8916918e8de456fe0bbc1a341564faec055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 03/21] fix: make the end of a machine final and its state
 visible to all threads

start() cleared the ended flag after running the initial entry actions, which
revived a machine that had ended by then; stop() changed flag and state in two
steps which a transition could overwrite; and the current state and listener were
plain fields, so other threads could read stale values.
---
 .../statemachine/GenericStateMachine.java     | 46 +++++++++++++------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 6cb9feb..ebc73d3 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -37,11 +37,12 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private final T context;
   private final EventProcessingStrategy<T, S> eventProcessingStrategy;
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
-  private StateMachineListener<T, S> stateMachineListener;
+  private final Object stateLock = new Object();
+  private volatile StateMachineListener<T, S> stateMachineListener;
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
-  private State<T, S> currentState;
+  private volatile State<T, S> currentState;
 
   private GenericStateMachine(T context, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states,
       StateMachineListener<T, S> stateMachineListener,
@@ -186,7 +187,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   public void notifyStateMachineListener(boolean isComplete, State<T, S> fromState,
       StateEvent<S> stateEvent, State<T, S> toState) {
-    if (this.stateMachineListener != null) {
+    // Read once since it can be set to null by another thread
+    StateMachineListener<T, S> listener = this.stateMachineListener;
+    if (listener != null) {
       if (fromState == null) {
         fromState = this.noState;
       }
@@ -197,9 +200,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         stateEvent = this.immediateEvent;
       }
       if (isComplete) {
-        this.stateMachineListener.onStateChangeEnd(fromState, stateEvent, toState);
+        listener.onStateChangeEnd(fromState, stateEvent, toState);
       } else {
-        this.stateMachineListener.onStateChangeBegin(fromState, stateEvent, toState);
+        listener.onStateChangeBegin(fromState, stateEvent, toState);
       }
     }
   }
@@ -229,17 +232,31 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    if (isStarted.compareAndSet(false, true)) {
-      currentState = initState;
+    if (markStartedIn(initState)) {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
-      isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
 
+  /**
+   * The state is published before the flag that lets other threads see the machine as started. An
+   * end that is reached after this is final, also when it's reached while the machine is starting.
+   */
+  private boolean markStartedIn(State<T, S> state) {
+    synchronized (stateLock) {
+      if (isStarted.get()) {
+        return false;
+      }
+      currentState = state;
+      isEnded.set(false);
+      isStarted.set(true);
+      return true;
+    }
+  }
+
   /**
    * This causes an immediate stop of the {@link StateMachine}. Any queued {@link StateEvent}s will
    * not process as expected and any {@link StateEvent} that is being processed may not complete as
@@ -258,10 +275,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-    if (isStarted.compareAndSet(false, true)) {
-      this.currentState = state;
-      isEnded.set(false);
-    } else {
+    if (!markStartedIn(state)) {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
@@ -316,8 +330,12 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   public void updateCurrentState(State<T, S> state) {
-    if (isEnded.compareAndSet(false, state.equals(endState))) {
-      currentState = state;
+    // The end and the state have to change together or stop() could be overwritten by a transition
+    synchronized (stateLock) {
+      if (!isEnded.get()) {
+        currentState = state;
+        isEnded.set(state.equals(endState));
+      }
     }
   }
 
-- 
2.43.0


From 93f280c6fa7804d72021e3414cf8192b1eaf422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 04/21] fix: do not process events before the start of the
 machine is complete

An event fired while start() runs the initial entry actions was processed on the
event thread at the same time, so transitions overlapped.
---
 .../statemachine/GenericStateMachine.java      | 18 ++++++++++++++++++
 .../statemachine/strategy/TransitionTask.java  |  7 +++++++
 2 files changed, 25 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index ebc73d3..c0fdd96 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -218,6 +218,21 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   @Override
   public void start() {
     assertInitStateDefined(true);
+    assertNotStarted();
+    assertAllMappingsComplete();
+    // Events that are fired from here on are not processed until the machine has completely started
+    synchronized (this) {
+      startInInitState();
+    }
+  }
+
+  private void assertNotStarted() {
+    if (isStarted()) {
+      throw new IllegalStateException("The state machine has already been started");
+    }
+  }
+
+  private void assertAllMappingsComplete() {
     if (this.states.isEmpty()) {
       throw new IllegalStateException(
           "State machine cannot be started with no defined transitions.");
@@ -232,6 +247,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
+  }
+
+  private void startInInitState() {
     if (markStartedIn(initState)) {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
diff --git a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
index 1d65b60..d6b8161 100644
--- a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
+++ b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
@@ -24,6 +24,13 @@ public class TransitionTask<T, S> {
   }
 
   void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {
+    // Waits until the machine has completely started, see GenericStateMachine#start()
+    synchronized (machine) {
+      transition(event, machine);
+    }
+  }
+
+  private void transition(StateEvent<S> event, GenericStateMachine<T, S> machine) {
     State<T, S> toState = states.get(machine.getCurrentState()).get(event);
     if (toState == null) {
       unmappedEventHandler.accept(event, machine);
-- 
2.43.0


From 40fc35496f381e176dfb029f056d1d1158554d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 05/21] fix: end a machine whose initial state is configured to
 end

---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index c0fdd96..0c160fb 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -254,6 +254,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
+      if (this.endState.equals(this.states.get(initState).get(immediateEvent))) {
+        stop();
+      }
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From bbab114d0f90ce9ece15e37f9d10d6f8a8c1c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 06/21] fix: apply the checks of start() to startInState()

It accepted reserved states (a machine could be started as _END_ and yet not be
ended) and configurations in which an event has no outcome.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 0c160fb..0e97bbd 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -296,6 +296,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
+    assertNotReservedState(state);
+    assertNotStarted();
+    assertAllMappingsComplete();
     if (!markStartedIn(state)) {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From aa3a25439d1ad02ddfa1829db013931e0e772f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 07/21] fix: reject a second mapping of an event instead of
 overriding the first

receives() wiped the existing mapping, so the check for it never failed.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 0e97bbd..1722476 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -92,7 +92,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
     this.markedEvent = stateEvent;
-    this.states.get(this.markedState).put(this.markedEvent, null);
+    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);
     return this;
   }
 
-- 
2.43.0


From 19fee5c243195ec316c3ac817787fb9b77f43aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 08/21] fix: reject an outcome for which no event was defined

when(a).itTransitionsTo(b) silently mapped the null event.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 1722476..f6ee82c 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -150,6 +150,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   private void assertEventNotMapped() {
+    if (this.markedEvent == null) {
+      throw new IllegalStateException(
+          "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
+    }
     State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);
     if (toState != null) {
       throw new IllegalStateException(
-- 
2.43.0


From 30ce28008a57aebed55d982ba1663384d6173073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 09/21] fix: reset pooled objects so that processed events are
 not retained

The pool kept the last payload (and machine) of every pooled object reachable.
---
 .../statemachine/strategy/DropDuplicateEventStrategy.java       | 2 +-
 .../webotech/statemachine/strategy/EventMachinePairPool.java    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 2abcb94..a2d8850 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -42,7 +42,7 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
-    if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
+    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
       logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
       return;
     }
diff --git a/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java b/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
index 6a2f4bd..0188fbe 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
@@ -30,6 +30,7 @@ public class EventMachinePairPool<T, S> {
    */
   void give(EventMachinePair<T, S> eventMachinePair) {
     if (eventMachinePair != null) {
+      eventMachinePair.setEventMachinePair(null, null);
       pool.offer(eventMachinePair);
     }
   }
-- 
2.43.0


From cc146d48fa1541e76d16399308fec444082e395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 10/21] fix: count the event that is being processed in the
 event queue size

It is documented as the number of events that have not completed processing, but
was 0 as soon as the last one was taken off the queue.
---
 .../statemachine/strategy/DefaultEventStrategy.java       | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3e870db..258a71c 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -13,6 +13,7 @@ import com.webotech.statemachine.api.StateMachine;
 import java.util.Map;
 import java.util.Queue;
 import java.util.concurrent.ExecutorService;
+import java.util.concurrent.atomic.AtomicInteger;
 import java.util.function.BiConsumer;
 
 public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S> {
@@ -23,6 +24,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
   private final EventMachinePairPool<T, S> eventMachinePairPool;
   private final int maxQueueSize;
+  private final AtomicInteger pendingEvents = new AtomicInteger();
 
   /**
    * The default {@link EventProcessingStrategy}, it transitions state atomically. All
@@ -63,12 +65,12 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public int getEventQueueSize() {
-    return eventQueue.size();
+    return pendingEvents.get();
   }
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    int queueSize = getEventQueueSize();
+    int queueSize = eventQueue.size();
     if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
       unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
           Thread.currentThread(), new IllegalStateException(
@@ -83,6 +85,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
+    pendingEvents.incrementAndGet();
     eventQueue.offer(inboundPair);
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
@@ -98,6 +101,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
               Thread.currentThread(), e);
         } finally {
           eventMachinePairPool.give(consumedPair);
+          pendingEvents.decrementAndGet();
         }
       }
     });
-- 
2.43.0


From 0de7b53d80466a855d8745cd4a4dea12cf7b6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 11/21] fix: keep the maximum queue size exact and report
 events that do not fit

Concurrent senders all passed the size check and overfilled the queue; an event
that a bounded queue of the user declined was silently lost.
---
 .../strategy/DefaultEventStrategy.java        | 45 ++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 258a71c..1cdaf6b 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -72,9 +72,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     int queueSize = eventQueue.size();
     if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
-      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
-          Thread.currentThread(), new IllegalStateException(
-              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
+      dropEvent(stateEvent, stateMachine, queueSize);
       return;
     }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
@@ -85,8 +83,11 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
-    pendingEvents.incrementAndGet();
-    eventQueue.offer(inboundPair);
+    if (!enqueue(inboundPair)) {
+      eventMachinePairPool.give(inboundPair);
+      dropEvent(stateEvent, stateMachine, eventQueue.size());
+      return;
+    }
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
@@ -107,6 +108,40 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     });
   }
 
+  private void dropEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine,
+      int queueSize) {
+    unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+        Thread.currentThread(), new IllegalStateException(
+            String.format("Queue size is maxed out at %s - dropping event", queueSize)));
+  }
+
+  /**
+   * @return false if there is no room for the event
+   */
+  private boolean enqueue(EventMachinePair<T, S> inboundPair) {
+    if (maxQueueSize > 0) {
+      // Concurrent senders must not all find the same free place
+      synchronized (eventQueue) {
+        return eventQueue.size() < maxQueueSize && offer(inboundPair);
+      }
+    }
+    return offer(inboundPair);
+  }
+
+  private boolean offer(EventMachinePair<T, S> inboundPair) {
+    // Counted before it's queued since it may be processed at any time after that
+    pendingEvents.incrementAndGet();
+    boolean isQueued = false;
+    try {
+      isQueued = eventQueue.offer(inboundPair);
+    } finally {
+      if (!isQueued) {
+        pendingEvents.decrementAndGet();
+      }
+    }
+    return isQueued;
+  }
+
   @Override
   public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
     this.transitionTask.setStates(states);
-- 
2.43.0


From 138528ed7b4ea14794df2ac246901167f3025cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 12/21] fix: do not queue equal events from concurrent senders

The look in the queue and the queueing were two steps, so two threads could both
find no equal event in the queue.
---
 .../statemachine/strategy/DropDuplicateEventStrategy.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index a2d8850..1193249 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -40,7 +40,7 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   }
 
   @Override
-  public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+  public synchronized void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
     if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
       logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
-- 
2.43.0


From 4d03a6baa722a7188e1fcbd85d14e2d7d2509b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 13/21] fix: also use a safe copy of events fired without a
 payload

A payload set on the instance after such a fire was seen by the event that was
fired before.
---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 1cdaf6b..0722c71 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -76,7 +76,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
       return;
     }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent.getPayload() != null) {
+    if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
         setting different payloads on the same event instance */
       inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-- 
2.43.0


From e347ef584c36e6541012417ae35a73998abed78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 14/21] fix: notify all listeners even if one of them throws

Listeners are called back independently, but one that threw kept the notification
from those after it.
---
 .../MultiConsumerStateMachineListener.java    | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
index aeaf46d..6b80feb 100644
--- a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
+++ b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
@@ -10,6 +10,7 @@ import com.webotech.statemachine.api.StateMachineListener;
 import java.util.Map;
 import java.util.Objects;
 import java.util.concurrent.ConcurrentHashMap;
+import java.util.function.Consumer;
 import java.util.stream.Stream;
 
 /**
@@ -43,17 +44,34 @@ public class MultiConsumerStateMachineListener<T, S> implements StateMachineList
     return this.consumers.remove(stateMachineListener) != null;
   }
 
-  @Override
-  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
+  /**
+   * Notifies every consumer, also when some of them throw; the first exception is then rethrown
+   */
+  private void notifyAll(Consumer<StateMachineListener<T, S>> notification) {
+    RuntimeException exception = null;
     for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeBegin(fromState, event, toState);
+      try {
+        notification.accept(stateMachineListener);
+      } catch (RuntimeException e) {
+        if (exception == null) {
+          exception = e;
+        } else if (exception != e) {
+          exception.addSuppressed(e);
+        }
+      }
+    }
+    if (exception != null) {
+      throw exception;
     }
   }
 
+  @Override
+  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
+    notifyAll(l -> l.onStateChangeBegin(fromState, event, toState));
+  }
+
   @Override
   public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
-    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeEnd(fromState, event, toState);
-    }
+    notifyAll(l -> l.onStateChangeEnd(fromState, event, toState));
   }
 }
-- 
2.43.0


From 2c8ef649c2791d2efeb627bfc610974742318b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 15/21] fix: let start() of a restartable app return when the
 app has ended

Nothing released the blocked thread when a stopped app received a stop event.
---
 .../webotech/statemachine/service/AbstractAppService.java   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index ec4893f..9642410 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -101,6 +101,12 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
         appLatch.countDown();
       }
     });
+    stopped.appendExitActions((evt, stateMachine) -> {
+      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {
+        // The app ends, this releases the thread that is blocked in start()
+        appLatch.countDown();
+      }
+    });
 
     LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
         started, stopping, stopped);
-- 
2.43.0


From bd2cda7baf1708947bb98c7c0fd41c0e646c8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 16/21] fix: do not stop an app again that has already been
 stopped

After a normal stop start() raced with the app's end: it threw an
IllegalStateException if the state machine ended between the two checks.
---
 .../com/webotech/statemachine/service/AbstractAppService.java    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index 9642410..7935da6 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -134,7 +134,6 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-      } finally {
         if (!appStateMachine.isEnded()) {
           stop();
         }
-- 
2.43.0


From 4bc2be5e24429e5c3049641a5124b694399a223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 17/21] fix: make the event of a queued pair safe to read for
 all threads

---
 .../com/webotech/statemachine/strategy/EventMachinePair.java   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventMachinePair.java b/src/main/java/com/webotech/statemachine/strategy/EventMachinePair.java
index 384f3d1..1f5b807 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventMachinePair.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventMachinePair.java
@@ -14,7 +14,8 @@ import com.webotech.statemachine.api.StateEvent;
  */
 public class EventMachinePair<T, S> {
 
-  private StateEvent<S> stateEvent;
+  // Read by other threads while it's reset, see DropDuplicateEventStrategy
+  private volatile StateEvent<S> stateEvent;
   private GenericStateMachine<T, S> stateMachine;
 
   EventMachinePair() {
-- 
2.43.0


From c40622420e8591691a7ea31521e414df39fd4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 18/21] fix: discard an event that waited for a start in which
 the machine ended

---
 .../com/webotech/statemachine/strategy/TransitionTask.java    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
index d6b8161..028c4a2 100644
--- a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
+++ b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
@@ -26,7 +26,9 @@ public class TransitionTask<T, S> {
   void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {
     // Waits until the machine has completely started, see GenericStateMachine#start()
     synchronized (machine) {
-      transition(event, machine);
+      if (!machine.isEnded()) {
+        transition(event, machine);
+      }
     }
   }
 
-- 
2.43.0


From c372e6d4d3feecf7fee77a676e9a73055e75dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 19/21] fix: also notify all listeners when one of them throws
 an Error

---
 .../MultiConsumerStateMachineListener.java    | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
index 6b80feb..8004468 100644
--- a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
+++ b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
@@ -45,23 +45,26 @@ public class MultiConsumerStateMachineListener<T, S> implements StateMachineList
   }
 
   /**
-   * Notifies every consumer, also when some of them throw; the first exception is then rethrown
+   * Notifies every consumer, also when some of them throw; what was thrown first is then rethrown
    */
   private void notifyAll(Consumer<StateMachineListener<T, S>> notification) {
-    RuntimeException exception = null;
+    Throwable thrown = null;
     for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
       try {
         notification.accept(stateMachineListener);
-      } catch (RuntimeException e) {
-        if (exception == null) {
-          exception = e;
-        } else if (exception != e) {
-          exception.addSuppressed(e);
+      } catch (RuntimeException | Error e) {
+        if (thrown == null) {
+          thrown = e;
+        } else if (thrown != e) {
+          thrown.addSuppressed(e);
         }
       }
     }
-    if (exception != null) {
-      throw exception;
+    if (thrown instanceof Error) {
+      throw (Error) thrown;
+    }
+    if (thrown != null) {
+      throw (RuntimeException) thrown;
     }
   }
 
-- 
2.43.0


From 058c9552522c7e4821bc744f1870b5bf6e07c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 20/21] fix: do not report a refused event while the duplicate
 check is locked

---
 .../strategy/DefaultEventStrategy.java        | 27 ++++++++++++++-----
 .../strategy/DropDuplicateEventStrategy.java  | 18 ++++++++++---
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 0722c71..4e09f94 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -70,10 +70,20 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    if (queueEvent(stateEvent, stateMachine)) {
+      processQueue(stateMachine);
+    } else {
+      dropEvent(stateEvent, stateMachine);
+    }
+  }
+
+  /**
+   * @return false if there is no room for the event
+   */
+  boolean queueEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     int queueSize = eventQueue.size();
     if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
-      dropEvent(stateEvent, stateMachine, queueSize);
-      return;
+      return false;
     }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
     if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent) {
@@ -85,9 +95,12 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     }
     if (!enqueue(inboundPair)) {
       eventMachinePairPool.give(inboundPair);
-      dropEvent(stateEvent, stateMachine, eventQueue.size());
-      return;
+      return false;
     }
+    return true;
+  }
+
+  void processQueue(GenericStateMachine<T, S> stateMachine) {
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
@@ -108,11 +121,11 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     });
   }
 
-  private void dropEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine,
-      int queueSize) {
+  void dropEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
         Thread.currentThread(), new IllegalStateException(
-            String.format("Queue size is maxed out at %s - dropping event", queueSize)));
+            String.format("Queue size is maxed out at %s - dropping event",
+                Math.max(maxQueueSize, eventQueue.size()))));
   }
 
   /**
diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 1193249..e298923 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -40,13 +40,25 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   }
 
   @Override
-  public synchronized void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+  public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    queueEvent(stateEvent, stateMachine).run();
+  }
+
+  /**
+   * @return what remains to be done, it calls back client code so the lock must not be held
+   */
+  private synchronized Runnable queueEvent(StateEvent<S> stateEvent,
+      GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
     if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
       logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
-      return;
+      return () -> {
+      };
+    }
+    if (defaultStrategy.queueEvent(stateEvent, stateMachine)) {
+      return () -> defaultStrategy.processQueue(stateMachine);
     }
-    defaultStrategy.processEvent(stateEvent, stateMachine);
+    return () -> defaultStrategy.dropEvent(stateEvent, stateMachine);
   }
 
   @Override
-- 
2.43.0


From 087aaba3d17633c7f0aac090b66fc3db37e75ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:10 +0000
Subject: [PATCH 21/21] fix: treat events as unmapped in a state that was
 entered in vain and is never configured

---
 .../com/webotech/statemachine/strategy/TransitionTask.java   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
index 028c4a2..b2dec41 100644
--- a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
+++ b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
@@ -8,6 +8,7 @@ import com.webotech.statemachine.GenericStateMachine;
 import com.webotech.statemachine.api.State;
 import com.webotech.statemachine.api.StateEvent;
 import com.webotech.statemachine.api.StateMachine;
+import java.util.Collections;
 import java.util.Map;
 import java.util.function.BiConsumer;
 
@@ -33,7 +34,9 @@ public class TransitionTask<T, S> {
   }
 
   private void transition(StateEvent<S> event, GenericStateMachine<T, S> machine) {
-    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
+    // A state that is never configured is still current when entering it has failed
+    State<T, S> toState = states.getOrDefault(machine.getCurrentState(), Collections.emptyMap())
+        .get(event);
     if (toState == null) {
       unmappedEventHandler.accept(event, machine);
       return;
-- 
2.43.0

