From f9127dd164c16513fe902c0665dffbba43beed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 001/118] fix: HashSet.remove and LinkedHashSet.remove returned
 the opposite of the documented result

---
 classpath/java/util/HashSet.java       | 2 +-
 classpath/java/util/LinkedHashSet.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/HashSet.java b/classpath/java/util/HashSet.java
index 3c70cda..f325bca 100644
--- a/classpath/java/util/HashSet.java
+++ b/classpath/java/util/HashSet.java
@@ -51,7 +51,7 @@ public class HashSet<T> extends AbstractSet<T> implements Set<T> {
   }
 
   public boolean remove(Object element) {
-    return map.remove(element) != Value;
+    return map.remove(element) == Value;
   }
 
   public void clear() {
diff --git a/classpath/java/util/LinkedHashSet.java b/classpath/java/util/LinkedHashSet.java
index b508b1d..9b25592 100644
--- a/classpath/java/util/LinkedHashSet.java
+++ b/classpath/java/util/LinkedHashSet.java
@@ -51,7 +51,7 @@ public class LinkedHashSet<T> extends AbstractSet<T> implements Set<T> {
   }
 
   public boolean remove(Object element) {
-    return map.remove(element) != Value;
+    return map.remove(element) == Value;
   }
 
   public void clear() {
-- 
2.43.0


From 3ca3a040bee74292b982c76aca00427882eb9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 002/118] fix: HashMap.remove(Cell) unlinked every cell before
 the removed one in its bucket

---
 classpath/java/util/HashMap.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/classpath/java/util/HashMap.java b/classpath/java/util/HashMap.java
index c86f1dd..26bbb6b 100644
--- a/classpath/java/util/HashMap.java
+++ b/classpath/java/util/HashMap.java
@@ -125,6 +125,7 @@ public class HashMap<K, V> implements Map<K, V> {
         -- size;
         break;
       }
+      p = c;
     }
 
     shrink();
-- 
2.43.0


From ab6b48a2b219a9a1b14185bb800f41d72a195d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 003/118] fix: Map.entrySet().contains/remove ignored the value
 of the entry

---
 classpath/avian/Data.java | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/classpath/avian/Data.java b/classpath/avian/Data.java
index 0914362..a5319a8 100644
--- a/classpath/avian/Data.java
+++ b/classpath/avian/Data.java
@@ -104,8 +104,10 @@ public class Data {
     }
 
     public boolean contains(Object o) {
-      return (o instanceof Entry<?,?>)
-        && map.find(((Entry<?,?>)o).getKey()) != null;
+      if (! (o instanceof Entry<?,?>)) return false;
+      Entry<?,?> e = (Entry<?,?>) o;
+      Entry<K, V> found = map.find(e.getKey());
+      return found != null && equal((Object) found.getValue(), e.getValue());
     }
 
     public boolean add(Entry<K, V> e) {
@@ -113,12 +115,11 @@ public class Data {
     }
 
     public boolean remove(Object o) {
-      return (o instanceof Entry<?,?>)
-        && map.remove(((Entry<?,?>) o).getKey()) != null;
+      return contains(o) && map.remove(((Entry<?,?>) o).getKey()) != null;
     }
 
     public boolean remove(Entry<K, V> e) {
-      return map.remove(e.getKey()) != null;
+      return remove((Object) e);
     }
 
     public Object[] toArray() {
-- 
2.43.0


From 661e8ae5f9501b0d780bb970005359bc7fb9006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 004/118] fix: LinkedHashMap kept removed keys in its link
 table, so removing a key again corrupted the order

---
 classpath/java/util/LinkedHashMap.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/LinkedHashMap.java b/classpath/java/util/LinkedHashMap.java
index 2b9bcce..00ed0ac 100644
--- a/classpath/java/util/LinkedHashMap.java
+++ b/classpath/java/util/LinkedHashMap.java
@@ -62,7 +62,7 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
   }
 
   public V remove(Object key) {
-    LinkedKey<K> linked = lookup.get(key);
+    LinkedKey<K> linked = lookup.remove(key);
     if (linked == null) {
       return null;
     }
@@ -81,6 +81,7 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
 
   public void clear() {
     first = last = null;
+    lookup.clear();
     super.clear();
   }
 
-- 
2.43.0


From ca2b9aa26b68e2f1bc3b11598dd5e67b926922e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 005/118] fix: LinkedHashMap iterator removed the wrong entry
 when remove was not preceded by next

---
 classpath/java/util/LinkedHashMap.java | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/LinkedHashMap.java b/classpath/java/util/LinkedHashMap.java
index 00ed0ac..af61524 100644
--- a/classpath/java/util/LinkedHashMap.java
+++ b/classpath/java/util/LinkedHashMap.java
@@ -245,12 +245,14 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
 
   private class MyIterator implements Iterator<Entry<K, V>> {
     private LinkedKey<K> current = first;
+    private LinkedKey<K> previous;
 
     public Entry<K, V> next() {
       if (!hasNext()) {
         throw new NoSuchElementException();
       }
       Entry<K, V> result = find(current.key);
+      previous = current;
       current = current.next;
       return result;
     }
@@ -260,8 +262,11 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
     }
 
     public void remove() {
-      LinkedHashMap.this.remove(current == null ?
-        last.key : current.previous.key);
+      if (previous == null) {
+        throw new IllegalStateException();
+      }
+      LinkedHashMap.this.remove(previous.key);
+      previous = null;
     }
   }
 }
-- 
2.43.0


From af4369f9d1aa34910402d18c87b25426acf62270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 006/118] fix: LinkedHashMap views misreported entries with
 null or different values

---
 classpath/java/util/LinkedHashMap.java | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/classpath/java/util/LinkedHashMap.java b/classpath/java/util/LinkedHashMap.java
index af61524..7449934 100644
--- a/classpath/java/util/LinkedHashMap.java
+++ b/classpath/java/util/LinkedHashMap.java
@@ -111,8 +111,11 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
     }
 
     public boolean contains(Object o) {
-      return (o instanceof Entry<?,?>)
-        && containsKey(((Entry<?,?>)o).getKey());
+      if (! (o instanceof Entry<?,?>)) return false;
+      Entry<?,?> e = (Entry<?,?>) o;
+      Entry<K, V> found = find(e.getKey());
+      return found != null
+        && avian.Data.equal((Object) found.getValue(), e.getValue());
     }
 
     public boolean add(Entry<K, V> e) {
@@ -120,11 +123,13 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
     }
 
     public boolean remove(Object o) {
-      return (o instanceof Entry<?,?>) && remove((Entry<?,?>)o);
+      if (! contains(o)) return false;
+      LinkedHashMap.this.remove(((Entry<?,?>) o).getKey());
+      return true;
     }
 
     public boolean remove(Entry<K, V> e) {
-      return LinkedHashMap.this.remove(e.getKey()) != null;
+      return remove((Object) e);
     }
 
     public Object[] toArray() {
@@ -162,7 +167,9 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
     }
 
     public boolean remove(Object key) {
-      return LinkedHashMap.this.remove(key) != null;
+      if (! containsKey(key)) return false;
+      LinkedHashMap.this.remove(key);
+      return true;
     }
 
     public Object[] toArray() {
-- 
2.43.0


From 749d9607ae55c0471f4dbc0b071df82f7d4a2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 007/118] fix: removing the first element through a TreeSet or
 TreeMap iterator threw IllegalStateException

---
 classpath/avian/PersistentSet.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/avian/PersistentSet.java b/classpath/avian/PersistentSet.java
index c257807..93f159e 100644
--- a/classpath/avian/PersistentSet.java
+++ b/classpath/avian/PersistentSet.java
@@ -446,7 +446,7 @@ public class PersistentSet <T> implements Iterable <T> {
       new_ = new_.left = new Node(old);
     }
 
-    return new Path(true, new_,
+    return new Path(false, new_,
                     new PersistentSet(newRoot, comparator, size),
                     ancestors);
   }
@@ -466,7 +466,7 @@ public class PersistentSet <T> implements Iterable <T> {
       new_ = new_.right = new Node(old);
     }
 
-    return new Path(true, new_,
+    return new Path(false, new_,
                     new PersistentSet(newRoot, comparator, size),
                     ancestors);
   }
-- 
2.43.0


From c5826c4aff1692b7172d62064c3ca40a2d6457b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 008/118] fix: PersistentSet.remove worked on the wrong root

---
 classpath/avian/PersistentSet.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/avian/PersistentSet.java b/classpath/avian/PersistentSet.java
index 93f159e..330a4fb 100644
--- a/classpath/avian/PersistentSet.java
+++ b/classpath/avian/PersistentSet.java
@@ -183,7 +183,7 @@ public class PersistentSet <T> implements Iterable <T> {
   public PersistentSet<T> remove(T value) {
     Path<T> p = find(value);
     if (! p.fresh) {
-      return remove(p);
+      return p.remove();
     }
 
     return this;
-- 
2.43.0


From 28d8e9a255bb6a5ccc7acfd23757e40665f06659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 009/118] fix: TreeSet iterator threw NullPointerException past
 its end

---
 classpath/java/util/TreeSet.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classpath/java/util/TreeSet.java b/classpath/java/util/TreeSet.java
index ccb03e3..945beab 100644
--- a/classpath/java/util/TreeSet.java
+++ b/classpath/java/util/TreeSet.java
@@ -169,6 +169,8 @@ public class TreeSet<T> extends AbstractSet<T> implements Collection<T> {
     }
 
     public T next() {
+      if (! hasNext()) throw new NoSuchElementException();
+
       if (cell == null) {
         path = nextPath;
         nextPath = nextPath();
-- 
2.43.0


From ccfaad753f32d7855246ee1380e1f4e79a0ff998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 010/118] fix: Collection.toArray threw ArrayStoreException for
 null elements

---
 classpath/avian/Data.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/avian/Data.java b/classpath/avian/Data.java
index a5319a8..58ddbf0 100644
--- a/classpath/avian/Data.java
+++ b/classpath/avian/Data.java
@@ -37,7 +37,7 @@ public class Data {
 
     int i = 0;
     for (Object o: collection) {
-      if (c.isInstance(o)) {
+      if (o == null || c.isInstance(o)) {
         array[i++] = (T) o;
       } else {
         throw new ArrayStoreException();
-- 
2.43.0


From 0ac16b67e20429dbbb084203ae2f2456438b8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 011/118] fix: TreeMap.firstEntry and lastEntry threw for an
 empty map

---
 classpath/java/util/TreeMap.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/TreeMap.java b/classpath/java/util/TreeMap.java
index 9b8792d..b55aa18 100644
--- a/classpath/java/util/TreeMap.java
+++ b/classpath/java/util/TreeMap.java
@@ -52,12 +52,12 @@ public class TreeMap<K,V> implements NavigableMap<K,V> {
 
   @Override
   public Map.Entry<K,V> firstEntry() {
-    return set.first();
+    return set.isEmpty() ? null : set.first();
   }
 
   @Override
   public Map.Entry<K,V> lastEntry() {
-    return set.last();
+    return set.isEmpty() ? null : set.last();
   }
 
   @Override
-- 
2.43.0


From 75813714c2451886ee461203d5a453f0aa5c18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 012/118] fix: TreeMap.entrySet() rejected entries of other
 maps with ClassCastException

---
 classpath/java/util/TreeMap.java | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/TreeMap.java b/classpath/java/util/TreeMap.java
index b55aa18..248837a 100644
--- a/classpath/java/util/TreeMap.java
+++ b/classpath/java/util/TreeMap.java
@@ -139,7 +139,7 @@ public class TreeMap<K,V> implements NavigableMap<K,V> {
   }
 
   public Set<Entry<K, V>> entrySet() {
-    return (Set<Entry<K, V>>) (Set) set;
+    return new avian.Data.EntrySet(new MyEntryMap());
   }
 
   public Set<K> keySet() {
@@ -175,6 +175,28 @@ public class TreeMap<K,V> implements NavigableMap<K,V> {
     
   }
 
+  private class MyEntryMap implements avian.Data.EntryMap<K, V> {
+    public int size() {
+      return TreeMap.this.size();
+    }
+
+    public Entry<K, V> find(Object key) {
+      return set.find(new MyEntry(key, null));
+    }
+
+    public Entry<K, V> remove(Object key) {
+      return set.removeAndReturn(new MyEntry(key, null));
+    }
+
+    public void clear() {
+      TreeMap.this.clear();
+    }
+
+    public Iterator<Entry<K, V>> iterator() {
+      return (Iterator<Entry<K, V>>) (Iterator) set.iterator();
+    }
+  }
+
   private class KeySet extends AbstractSet<K> {
     public int size() {
       return TreeMap.this.size();
-- 
2.43.0


From 5275b5b523a59596470f7de9b25e5a25f71d0b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 013/118] fix: VM_STRESS builds could miss the wakeup while
 waiting for the exclusive state

---
 src/machine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 1383da4..2771136 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4069,7 +4069,11 @@ void enter(Thread* t, Thread::State s)
     while (t->m->exclusive) {
       // another thread got here first.
       ENTER(t, Thread::IdleState);
-      t->m->stateLock->wait(t->systemThread, 0);
+      // entering the idle state may itself collect (VM_STRESS), in
+      // which case the notification we would wait for may be past
+      if (t->m->exclusive) {
+        t->m->stateLock->wait(t->systemThread, 0);
+      }
     }
 
     switch (t->state) {
-- 
2.43.0


From 5f0032365c1ae06c1440423b7ea0e3777ce907ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 014/118] fix: WeakHashMap reported entries whose keys were
 collected

---
 classpath/java/util/WeakHashMap.java | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/classpath/java/util/WeakHashMap.java b/classpath/java/util/WeakHashMap.java
index 6cdd19f..b03eb98 100644
--- a/classpath/java/util/WeakHashMap.java
+++ b/classpath/java/util/WeakHashMap.java
@@ -37,10 +37,12 @@ public class WeakHashMap<K, V> implements Map<K, V> {
   }
 
   public boolean isEmpty() {
+    poll();
     return map.isEmpty();
   }
 
   public int size() {
+    poll();
     return map.size();
   }
 
@@ -65,6 +67,7 @@ public class WeakHashMap<K, V> implements Map<K, V> {
   }
 
   public void putAll(Map<? extends K,? extends V> elts) {
+    poll();
     map.putAll(elts);
   }
 
@@ -74,18 +77,22 @@ public class WeakHashMap<K, V> implements Map<K, V> {
   }
 
   public void clear() {
+    poll();
     map.clear();
   }
 
   public Set<Entry<K, V>> entrySet() {
+    poll();
     return map.entrySet();
   }
 
   public Set<K> keySet() {
+    poll();
     return map.keySet();
   }
 
   public Collection<V> values() {
+    poll();
     return map.values();
   }
 
-- 
2.43.0


From b29e365e75b148d9767b7bb2f73408d4fc66eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 015/118] fix: references to finalizable objects were never
 enqueued, unreachable references were

A reference whose target has a finalizer was cleared when the target became
unreachable but never reached its queue, and a reference which was itself
unreachable was cleared and enqueued although its target could still be alive.
---
 src/machine.cpp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 2771136..9a1944f 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -441,18 +441,16 @@ void referenceTargetUnreachable(Thread* t, Heap::Visitor* v, GcJreference** p)
 
 void referenceUnreachable(Thread* t, Heap::Visitor* v, GcJreference** p)
 {
-  GcJreference* r = t->m->heap->follow(*p);
-
   if (DebugReferences) {
-    fprintf(stderr, "reference %p unreachable (target %p)\n", *p, r->target());
+    fprintf(stderr,
+            "reference %p unreachable (target %p)\n",
+            *p,
+            t->m->heap->follow(*p)->target());
   }
 
-  if (r->queue() and t->m->heap->status(r->queue()) != Heap::Unreachable) {
-    // queue is reachable - add the reference
-    referenceTargetUnreachable(t, v, p);
-  } else {
-    *p = cast<GcJreference>(t, (*p)->vmNext());
-  }
+  // nobody can see the reference anymore, so it must not be enqueued
+  // whether or not its target is still reachable
+  *p = cast<GcJreference>(t, t->m->heap->follow(*p)->vmNext());
 }
 
 void referenceTargetReachable(Thread* t, Heap::Visitor* v, GcJreference** p)
@@ -479,10 +477,20 @@ bool isFinalizable(Thread* t, object o)
               & HasFinalizerFlag);
 }
 
-void clearTargetIfFinalizable(Thread* t, GcJreference* r)
+void clearTargetsIfFinalizable(Thread* t, Heap::Visitor* v, GcJreference** p)
 {
-  if (isFinalizable(t, t->m->heap->follow(r->target()))) {
-    r->target() = 0;
+  while (*p) {
+    GcJreference* r = t->m->heap->follow(*p);
+    if (isFinalizable(t, t->m->heap->follow(r->target()))) {
+      if (t->m->heap->status(*p) == Heap::Unreachable) {
+        r->target() = 0;
+      } else {
+        // clear and enqueue the reference, and remove it from the list
+        referenceTargetUnreachable(t, v, p);
+        continue;
+      }
+    }
+    p = reinterpret_cast<GcJreference**>(&(r->vmNext()));
   }
 }
 
@@ -495,18 +503,10 @@ void postVisit(Thread* t, Heap::Visitor* v)
 
   m->heap->postVisit();
 
-  for (GcJreference* p = m->weakReferences; p;) {
-    GcJreference* r = m->heap->follow(p);
-    p = cast<GcJreference>(t, r->vmNext());
-    clearTargetIfFinalizable(t, r);
-  }
+  clearTargetsIfFinalizable(t, v, &(m->weakReferences));
 
   if (major) {
-    for (GcJreference* p = m->tenuredWeakReferences; p;) {
-      GcJreference* r = m->heap->follow(p);
-      p = cast<GcJreference>(t, r->vmNext());
-      clearTargetIfFinalizable(t, r);
-    }
+    clearTargetsIfFinalizable(t, v, &(m->tenuredWeakReferences));
   }
 
   for (Reference* r = m->jniReferences; r; r = r->next) {
-- 
2.43.0


From a90fe94ac79212c4fd291690a3f5993ba5c4eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 016/118] fix: clone() of an array copied the header flags of
 the original

The clone of an array whose identity hash code had been taken and which had
been moved since was treated as having a stored hash code itself, so its own
was read from behind the object.
---
 src/machine.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 9a1944f..9ef7f0a 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5519,9 +5519,12 @@ object clone(Thread* t, object o)
 
   if (class_->arrayElementSize()) {
     clone = static_cast<object>(allocate(t, size, class_->objectMask()));
-    memcpy(clone, o, size);
-    // clear any object header flags:
-    setObjectClass(t, o, objectClass(t, o));
+    // the header flags (e.g. whether an identity hash code was taken)
+    // belong to each object, so they must not be copied:
+    memcpy(reinterpret_cast<void**>(clone) + 1,
+           reinterpret_cast<void**>(o) + 1,
+           size - BytesPerWord);
+    setObjectClass(t, clone, objectClass(t, o));
   } else if (instanceOf(t, type(t, GcCloneable::Type), o)) {
     clone = make(t, class_);
     memcpy(reinterpret_cast<void**>(clone) + 1,
-- 
2.43.0


From 2c73bf99455333c77a3f649a82ec916423dd9f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 017/118] fix: interrupt flag was lost or came back while the
 collector moved the Thread object

A waiting (idle) thread read and wrote the flag in its Java Thread object while
a collection could be moving that object, and Thread.interrupt() set it again
after the target had already responded.
---
 src/avian/machine.h       | 20 +++++++++++++++++---
 src/builtin.cpp           |  3 ++-
 src/classpath-android.cpp |  4 ++--
 src/classpath-avian.cpp   |  4 ++--
 src/machine.cpp           | 10 ++++++++--
 5 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 46b3909..afb828d 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -1141,7 +1141,8 @@ class Thread {
     ActiveFlag = 1 << 5,
     SystemFlag = 1 << 6,
     JoinFlag = 1 << 7,
-    TryNativeFlag = 1 << 8
+    TryNativeFlag = 1 << 8,
+    InterruptedFlag = 1 << 9
   };
 
   class Protector {
@@ -1777,12 +1778,19 @@ inline void Thread::Runnable::run()
 
 inline bool Thread::Runnable::interrupted()
 {
-  return t->javaThread and t->javaThread->interrupted();
+  // The system looks at this flag while the thread is idle, when the
+  // collector may be moving the Java thread object, so it must not be
+  // the one in that object.
+  return (t->getFlags() & Thread::InterruptedFlag) != 0;
 }
 
 inline void Thread::Runnable::setInterrupted(bool v)
 {
-  t->javaThread->interrupted() = v;
+  if (v) {
+    t->setFlag(Thread::InterruptedFlag);
+  } else {
+    t->clearFlag(Thread::InterruptedFlag);
+  }
 }
 
 inline uint64_t runRaw(Thread* t,
@@ -3202,6 +3210,9 @@ inline void notifyAll(Thread* t, object o)
 inline void interrupt(Thread* t, Thread* target)
 {
   if (acquireSystem(t, target)) {
+    if (target->javaThread) {
+      target->javaThread->interrupted() = true;
+    }
     target->systemThread->interrupt();
     releaseSystem(t, target);
   }
@@ -3211,6 +3222,9 @@ inline bool getAndClearInterrupted(Thread* t, Thread* target)
 {
   if (acquireSystem(t, target)) {
     bool result = target->systemThread->getAndClearInterrupted();
+    if (target->javaThread) {
+      target->javaThread->interrupted() = false;
+    }
     releaseSystem(t, target);
     return result;
   } else {
diff --git a/src/builtin.cpp b/src/builtin.cpp
index 4369ec6..d122a40 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -1099,7 +1099,8 @@ extern "C" AVIAN_EXPORT void JNICALL
     }
   }
   if (interrupted) {
-    t->javaThread->interrupted() = true;
+    // the flag was cleared to wake us up, but the interrupt is still pending
+    interrupt(t, t);
   }
   t->javaThread->unparked() = false;
   monitorRelease(t, cast<GcMonitor>(t, interruptLock(t, t->javaThread)));
diff --git a/src/classpath-android.cpp b/src/classpath-android.cpp
index c5db8be..bd43fba 100644
--- a/src/classpath-android.cpp
+++ b/src/classpath-android.cpp
@@ -248,9 +248,9 @@ class MyClasspath : public Classpath {
     return jfield->vmField();
   }
 
-  virtual void clearInterrupted(Thread*)
+  virtual void clearInterrupted(Thread* t)
   {
-    // ignore
+    t->javaThread->interrupted() = false;
   }
 
   virtual void runThread(Thread* t)
diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index 41ca4b1..8dac702 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -97,9 +97,9 @@ class MyClasspath : public Classpath {
     return jfield->vmField();
   }
 
-  virtual void clearInterrupted(Thread*)
+  virtual void clearInterrupted(Thread* t)
   {
-    // ignore
+    vm::clearInterrupted(t);
   }
 
   virtual void runThread(Thread* t)
diff --git a/src/machine.cpp b/src/machine.cpp
index 9ef7f0a..2b68046 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -6029,7 +6029,7 @@ object interruptLock(Thread* t, GcThread* thread)
 void clearInterrupted(Thread* t)
 {
   monitorAcquire(t, cast<GcMonitor>(t, interruptLock(t, t->javaThread)));
-  t->javaThread->interrupted() = false;
+  getAndClearInterrupted(t, t);
   monitorRelease(t, cast<GcMonitor>(t, interruptLock(t, t->javaThread)));
 }
 
@@ -6038,11 +6038,13 @@ void threadInterrupt(Thread* t, GcThread* thread)
   PROTECT(t, thread);
 
   monitorAcquire(t, cast<GcMonitor>(t, interruptLock(t, thread)));
+  // this comes first since the target may respond (and clear the flag)
+  // as soon as it is interrupted
+  thread->interrupted() = true;
   Thread* p = reinterpret_cast<Thread*>(thread->peer());
   if (p) {
     interrupt(t, p);
   }
-  thread->interrupted() = true;
   monitorRelease(t, cast<GcMonitor>(t, interruptLock(t, thread)));
 }
 
@@ -6053,6 +6055,10 @@ bool threadIsInterrupted(Thread* t, GcThread* thread, bool clear)
   monitorAcquire(t, cast<GcMonitor>(t, interruptLock(t, thread)));
   bool v = thread->interrupted();
   if (clear) {
+    Thread* p = reinterpret_cast<Thread*>(thread->peer());
+    if (p) {
+      getAndClearInterrupted(t, p);
+    }
     thread->interrupted() = false;
   }
   monitorRelease(t, cast<GcMonitor>(t, interruptLock(t, thread)));
-- 
2.43.0


From 1faa58e59590920d84ac5683b74f824f42f17afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 018/118] fix: Thread.interrupt() crashed when the thread had
 ended or was not started

---
 classpath/java/lang/Thread.java | 4 ++--
 src/classpath-avian.cpp         | 5 +----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 0dea70a..758ff36 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -143,10 +143,10 @@ public class Thread implements Runnable {
   public static native Thread currentThread();
 
   public void interrupt() {
-    interrupt(peer);
+    interrupt(this);
   }
 
-  private static native boolean interrupt(long peer);
+  private static native void interrupt(Thread thread);
 
   public static boolean interrupted() {
     return interrupted(currentThread().peer);
diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index 8dac702..c1822b5 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -554,10 +554,7 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
 extern "C" AVIAN_EXPORT void JNICALL
     Avian_java_lang_Thread_interrupt(Thread* t, object, uintptr_t* arguments)
 {
-  int64_t peer;
-  memcpy(&peer, arguments, 8);
-
-  threadInterrupt(t, reinterpret_cast<Thread*>(peer)->javaThread);
+  threadInterrupt(t, cast<GcThread>(t, reinterpret_cast<object>(arguments[0])));
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
-- 
2.43.0


From b62ccba407b1dd5f36ef196fe48f57e09ebd04d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 019/118] fix: Object.notify() was lost when it picked a thread
 that was being interrupted

---
 src/avian/machine.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index afb828d..3239db1 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -2985,6 +2985,8 @@ inline bool monitorFindWait(Thread* t, GcMonitor* monitor)
   return false;
 }
 
+inline bool monitorNotify(Thread* t, GcMonitor* monitor);
+
 inline bool monitorWait(Thread* t, GcMonitor* monitor, int64_t time)
 {
   expect(t, monitor->owner() == t);
@@ -3022,6 +3024,12 @@ inline bool monitorWait(Thread* t, GcMonitor* monitor, int64_t time)
     monitorRemoveWait(t, monitor);
   } else {
     expect(t, not monitorFindWait(t, monitor));
+
+    if (interrupted) {
+      // we were both notified and interrupted; the caller will only see
+      // the interrupt, so somebody else should get the notification
+      monitorNotify(t, monitor);
+    }
   }
 
   assertT(t, monitor->owner() == t);
-- 
2.43.0


From b84bba80de960189908c4684a83ab31f05e587cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 020/118] fix: a dead thread was disposed while another one
 still notified it

acquireSystem/releaseSystem used one flag, which the first of several users
cleared for all.
---
 src/avian/machine.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 3239db1..acc0524 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -1145,6 +1145,10 @@ class Thread {
     InterruptedFlag = 1 << 9
   };
 
+  // The bits above the flags count the threads which, beyond the first
+  // (see SystemFlag), still need the system thread of this one.
+  static const unsigned SystemCountUnit = 1 << 16;
+
   class Protector {
    public:
     Protector(Thread* t) : t(t), next(t->protector)
@@ -1333,6 +1337,12 @@ class Thread {
     atomicAnd(&flags, ~flag);
   }
 
+  void addToFlags(unsigned v) {
+    for (uint32_t old = flags; not atomicCompareAndSwap32(&flags, old, old + v);
+         old = flags) {
+    }
+  }
+
   unsigned getFlags() {
     return flags;
   }
@@ -2749,7 +2759,11 @@ inline bool acquireSystem(Thread* t, Thread* target)
   ACQUIRE_RAW(t, t->m->stateLock);
 
   if (t->state != Thread::JoinedState) {
-    target->setFlag(Thread::SystemFlag);
+    if (target->getFlags() & Thread::SystemFlag) {
+      target->addToFlags(Thread::SystemCountUnit);
+    } else {
+      target->setFlag(Thread::SystemFlag);
+    }
     return true;
   } else {
     return false;
@@ -2762,7 +2776,11 @@ inline void releaseSystem(Thread* t, Thread* target)
 
   assertT(t, t->state != Thread::JoinedState);
 
-  target->clearFlag(Thread::SystemFlag);
+  if (target->getFlags() >= Thread::SystemCountUnit) {
+    target->addToFlags(-Thread::SystemCountUnit);
+  } else {
+    target->clearFlag(Thread::SystemFlag);
+  }
 }
 
 inline bool atomicCompareAndSwapObject(Thread* t,
-- 
2.43.0


From cf81147527b1cbeecf490fee438ba098dbea8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 021/118] fix: a shift by a constant of more than seven bits
 aborted the compiler

---
 src/codegen/target/x86/operations.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/codegen/target/x86/operations.cpp b/src/codegen/target/x86/operations.cpp
index d9cbde1..2534fe3 100644
--- a/src/codegen/target/x86/operations.cpp
+++ b/src/codegen/target/x86/operations.cpp
@@ -1371,13 +1371,12 @@ void doShift(Context* c,
     shift(c, aSize, &cx, bSize, b);
   } else {
     maybeRex(c, bSize, b);
+    v &= (bSize == 8 ? 0x3F : 0x1F);
     if (v == 1) {
       opcode(c, 0xd1, type + regCode(b));
-    } else if (vm::fitsInInt8(v)) {
+    } else {
       opcode(c, 0xc1, type + regCode(b));
       c->code.append(v);
-    } else {
-      abort(c);
     }
   }
 }
-- 
2.43.0


From 2bfdf1ec664165ef2ff69c57069f693b40a6b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 022/118] fix: a field or length read whose result is unused
 missed its NullPointerException

---
 src/codegen/compiler/event.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/codegen/compiler/event.cpp b/src/codegen/compiler/event.cpp
index 575bede..97d3d73 100644
--- a/src/codegen/compiler/event.cpp
+++ b/src/codegen/compiler/event.cpp
@@ -779,8 +779,38 @@ class MoveEvent : public Event {
     return "MoveEvent";
   }
 
+  // a load whose result is never used must still be performed if it
+  // may trap, e.g. because the object to load from is null
+  void maybeTrap(Context* c)
+  {
+    if (dstValue->target == 0 and live(c, dstValue) == 0
+        and live(c, dstValue->nextWord) == 0
+        and srcValue->source->type(c) == lir::Operand::Type::Memory
+        and static_cast<MemorySite*>(srcValue->source)->base
+            != c->arch->stack()) {
+      unsigned size = min(srcSelectSize, c->targetInfo.pointerSize);
+
+      srcValue->source->freeze(c, srcValue);
+
+      Site* tmp = freeRegisterSite(c, c->regFile->generalRegisters);
+
+      apply(c,
+            lir::Move,
+            size,
+            srcValue->source,
+            srcValue->source,
+            c->targetInfo.pointerSize,
+            tmp,
+            tmp);
+
+      srcValue->source->thaw(c, srcValue);
+    }
+  }
+
   virtual void compile(Context* c)
   {
+    maybeTrap(c);
+
     OperandMask dst;
 
     c->arch->planDestination(
-- 
2.43.0


From 857f76cf6274f22e2061c1fe88ec339fc2f1e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 023/118] fix: negative int constants were compared as large
 positive ones when both operands are constants

---
 src/compile.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 37ff053..a2be621 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -5720,8 +5720,12 @@ loop:
         ir::Type type = singletonBit(t, pool, poolSize(t, pool), index - 1)
                             ? ir::Type::f4()
                             : ir::Type::i4();
+        // sign-extend the value since the compiler compares constants as
+        // 64-bit integers
         frame->push(type,
-                    c->constant(singletonValue(t, pool, index - 1), type));
+                    c->constant(static_cast<int32_t>(
+                                    singletonValue(t, pool, index - 1)),
+                                type));
       }
     } break;
 
-- 
2.43.0


From e17730d20b5148e68003ee54b72ffcf931842946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 024/118] fix: lcmp not followed by a branch compared unsigned,
 and float to long did not saturate

---
 src/codegen/runtime.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/codegen/runtime.cpp b/src/codegen/runtime.cpp
index b868464..ca54326 100644
--- a/src/codegen/runtime.cpp
+++ b/src/codegen/runtime.cpp
@@ -98,8 +98,11 @@ int64_t compareFloatsL(uint32_t bi, uint32_t ai)
   }
 }
 
-int64_t compareLongs(uint64_t b, uint64_t a)
+int64_t compareLongs(uint64_t bi, uint64_t ai)
 {
+  int64_t a = static_cast<int64_t>(ai);
+  int64_t b = static_cast<int64_t>(bi);
+
   if (a < b) {
     return -1;
   } else if (a > b) {
@@ -253,7 +256,9 @@ int64_t floatToLong(int32_t a)
   case FP_INFINITE:
     return signbit(f) ? INT64_MIN : INT64_MAX;
   default:
-    return static_cast<int64_t>(f);
+    return f >= INT64_MAX
+               ? INT64_MAX
+               : (f <= INT64_MIN ? INT64_MIN : static_cast<int64_t>(f));
   }
 }
 
-- 
2.43.0


From c12ea20efe0e73933482eafb2e4a240984c00b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 025/118] fix: a branch on less than (or equal) was taken for
 NaN

---
 src/codegen/target/x86/encode.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codegen/target/x86/encode.cpp b/src/codegen/target/x86/encode.cpp
index 3831366..3633028 100644
--- a/src/codegen/target/x86/encode.cpp
+++ b/src/codegen/target/x86/encode.cpp
@@ -311,6 +311,9 @@ void branchFloat(Context* c, lir::TernaryOperation op, lir::Constant* target)
     break;
 
   case lir::JumpIfFloatLess:
+    // jp past the jb so we don't jump to the target if unordered:
+    c->code.append(0x7a);
+    c->code.append(6);
     conditional(c, 0x82, target);
     break;
 
@@ -319,6 +322,9 @@ void branchFloat(Context* c, lir::TernaryOperation op, lir::Constant* target)
     break;
 
   case lir::JumpIfFloatLessOrEqual:
+    // jp past the jbe so we don't jump to the target if unordered:
+    c->code.append(0x7a);
+    c->code.append(6);
     conditional(c, 0x86, target);
     break;
 
-- 
2.43.0


From f324a08526b2fc1ad86d647a49db0aa3e8654441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 026/118] fix: the interpreter pushed two results for a
 comparison with NaN

---
 src/interpret.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 6ed8fef..f79b970 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1214,8 +1214,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, 1);
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1233,8 +1232,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, static_cast<unsigned>(-1));
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1468,8 +1466,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, 1);
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1487,8 +1484,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, static_cast<unsigned>(-1));
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
-- 
2.43.0


From 66e8fd7482ef82ad2e8daf55b7fa1340efda9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 027/118] fix: float to long did not saturate in the
 interpreter

---
 src/interpret.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index f79b970..9c08f7e 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1399,7 +1399,10 @@ loop:
       pushLong(t, signbit(f) ? INT64_MIN : INT64_MAX);
       break;
     default:
-      pushLong(t, static_cast<int64_t>(f));
+      pushLong(t,
+               f >= INT64_MAX
+                   ? INT64_MAX
+                   : (f <= INT64_MIN ? INT64_MIN : static_cast<int64_t>(f)));
       break;
     }
   }
-- 
2.43.0


From af8c065682096bc681ec2cb46a36ede2295ce59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 028/118] fix: the interpreter sign-extended char fields

---
 src/interpret.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 9c08f7e..054ca44 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -733,6 +733,9 @@ void pushField(Thread* t, object target, GcField* field)
     break;
 
   case CharField:
+    pushInt(t, fieldAtOffset<uint16_t>(target, field->offset()));
+    break;
+
   case ShortField:
     pushInt(t, fieldAtOffset<int16_t>(target, field->offset()));
     break;
-- 
2.43.0


From 55bdeb9c5f5224e6e111a7b425198c5a14a11181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 029/118] fix: the interpreter crashed dividing the most
 negative number by -1

---
 src/interpret.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 054ca44..6a5fe87 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1742,7 +1742,9 @@ loop:
       goto throw_;
     }
 
-    pushInt(t, a / b);
+    // the most negative int divided by -1 overflows, which is a trap
+    // on some processors
+    pushInt(t, b == -1 ? 0 - static_cast<uint32_t>(a) : a / b);
   }
     goto loop;
 
@@ -2107,7 +2109,7 @@ loop:
       goto throw_;
     }
 
-    pushInt(t, a % b);
+    pushInt(t, b == -1 ? 0 : a % b);
   }
     goto loop;
 
@@ -2357,7 +2359,7 @@ loop:
       goto throw_;
     }
 
-    pushLong(t, a / b);
+    pushLong(t, b == -1 ? 0 - static_cast<uint64_t>(a) : a / b);
   }
     goto loop;
 
@@ -2454,7 +2456,7 @@ loop:
       goto throw_;
     }
 
-    pushLong(t, a % b);
+    pushLong(t, b == -1 ? 0 : a % b);
   }
     goto loop;
 
-- 
2.43.0


From 34c43ba22a8ae21671b2a47c1c5522d1c74731a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 030/118] fix: the register of a load whose result is unused
 was not allocated

---
 src/codegen/compiler/event.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codegen/compiler/event.cpp b/src/codegen/compiler/event.cpp
index 97d3d73..780b60b 100644
--- a/src/codegen/compiler/event.cpp
+++ b/src/codegen/compiler/event.cpp
@@ -793,6 +793,7 @@ class MoveEvent : public Event {
       srcValue->source->freeze(c, srcValue);
 
       Site* tmp = freeRegisterSite(c, c->regFile->generalRegisters);
+      dstValue->addSite(c, tmp);
 
       apply(c,
             lir::Move,
@@ -803,6 +804,8 @@ class MoveEvent : public Event {
             tmp,
             tmp);
 
+      dstValue->removeSite(c, tmp);
+
       srcValue->source->thaw(c, srcValue);
     }
   }
-- 
2.43.0


From 1cfc8d443d8f1f59ee8f8cceadc96e52eb815abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 031/118] fix: a comparison not followed by a branch failed an
 assertion in debug builds

---
 src/compile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index a2be621..0f12064 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -3600,7 +3600,6 @@ bool integerBranch(MyThread* t,
   unsigned instruction = code->body()[ip++];
   uint32_t offset = codeReadInt16(t, code, ip);
   uint32_t newIp = (ip - 3) + offset;
-  assertT(t, newIp < code->length());
 
   ir::Value* target = frame->machineIpValue(newIp);
 
@@ -3611,6 +3610,8 @@ bool integerBranch(MyThread* t,
   case ifge:
   case iflt:
   case ifle:
+    assertT(t, newIp < code->length());
+
     c->condJump(toCompilerJumpOp(t, instruction), a, b, target);
     break;
 
@@ -3678,7 +3679,6 @@ bool floatBranch(MyThread* t,
   unsigned instruction = code->body()[ip++];
   uint32_t offset = codeReadInt16(t, code, ip);
   uint32_t newIp = (ip - 3) + offset;
-  assertT(t, newIp < code->length());
 
   ir::Value* target = frame->machineIpValue(newIp);
 
@@ -3689,6 +3689,8 @@ bool floatBranch(MyThread* t,
   case ifge:
   case iflt:
   case ifle:
+    assertT(t, newIp < code->length());
+
     c->condJump(
         toCompilerFloatJumpOp(t, instruction, lessIfUnordered), a, b, target);
     break;
-- 
2.43.0


From f16dd8c183f34a8f0ccbf6782cda961f51676689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 032/118] fix: Math.abs(-0.0) was -0.0

---
 classpath/java/lang/Math.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Math.java b/classpath/java/lang/Math.java
index c1d1c0b..53b2804 100644
--- a/classpath/java/lang/Math.java
+++ b/classpath/java/lang/Math.java
@@ -63,11 +63,11 @@ public final class Math {
   }
 
   public static float abs(float v) {
-    return (v < 0 ? -v : v);
+    return (v <= 0 ? 0 - v : v);
   }
 
   public static double abs(double v) {
-    return (v < 0 ? -v : v);
+    return (v <= 0 ? 0 - v : v);
   }
 
   public static long round(double v) {
-- 
2.43.0


From 6fadf9e0aa6596b2d77aba5828b09db67acaa3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 033/118] fix: dividing the most negative number by -1 threw
 ArithmeticException

---
 src/codegen/target/x86/operations.cpp | 48 ++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/codegen/target/x86/operations.cpp b/src/codegen/target/x86/operations.cpp
index 2534fe3..ca82bd8 100644
--- a/src/codegen/target/x86/operations.cpp
+++ b/src/codegen/target/x86/operations.cpp
@@ -1306,6 +1306,37 @@ void multiplyCR(Context* c,
   }
 }
 
+// the following three emit
+//
+//   if (a == -1) { ... } else { ... }
+//
+// using short jumps whose displacements are filled in afterwards
+
+void setShortJumpTarget(Context* c, unsigned jumpEnd)
+{
+  uint8_t displacement = c->code.length() - jumpEnd;
+  c->code.set(jumpEnd - 1, &displacement, 1);
+}
+
+unsigned beginUnlessMinusOne(Context* c, unsigned size, lir::RegisterPair* a)
+{
+  ResolvedPromise minusOnePromise(-1);
+  lir::Constant minusOne(&minusOnePromise);
+
+  compareCR(c, size, &minusOne, size, a);
+  opcode(c, 0x75);  // jne
+  c->code.append(0);
+  return c->code.length();
+}
+
+unsigned elseIfMinusOne(Context* c, unsigned notMinusOne)
+{
+  opcode(c, 0xeb);  // jmp
+  c->code.append(0);
+  setShortJumpTarget(c, notMinusOne);
+  return c->code.length();
+}
+
 void divideRR(Context* c,
               unsigned aSize,
               lir::RegisterPair* a,
@@ -1319,10 +1350,17 @@ void divideRR(Context* c,
 
   c->client->save(rdx);
 
+  // the processor traps when the most negative number is divided by -1
+  unsigned notMinusOne = beginUnlessMinusOne(c, aSize, a);
+  negateR(c, aSize, b);
+  unsigned end = elseIfMinusOne(c, notMinusOne);
+
   maybeRex(c, aSize, a, b);
   opcode(c, 0x99);  // cdq
   maybeRex(c, aSize, b, a);
   opcode(c, 0xf7, 0xf8 + regCode(a));
+
+  setShortJumpTarget(c, end);
 }
 
 void remainderRR(Context* c,
@@ -1338,12 +1376,20 @@ void remainderRR(Context* c,
 
   c->client->save(rdx);
 
+  lir::RegisterPair dx(rdx);
+
+  // the processor traps when the most negative number is divided by -1
+  unsigned notMinusOne = beginUnlessMinusOne(c, aSize, a);
+  xorRR(c, aSize, &dx, aSize, &dx);
+  unsigned end = elseIfMinusOne(c, notMinusOne);
+
   maybeRex(c, aSize, a, b);
   opcode(c, 0x99);  // cdq
   maybeRex(c, aSize, b, a);
   opcode(c, 0xf7, 0xf8 + regCode(a));
 
-  lir::RegisterPair dx(rdx);
+  setShortJumpTarget(c, end);
+
   moveRR(c, vm::TargetBytesPerWord, &dx, vm::TargetBytesPerWord, b);
 }
 
-- 
2.43.0


From 6b52cb467464ee74fbd6e9b40de0db3b8ee5058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 034/118] fix: float and double variables beyond the first 255
 aborted the VM

---
 src/compile.cpp   | 16 ++++++++++++++++
 src/interpret.cpp | 12 ++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 0f12064..461be50 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -6415,6 +6415,14 @@ loop:
         frame->store(ir::Type::i4(), codeReadInt16(t, code, ip));
       } break;
 
+      case fload: {
+        frame->load(ir::Type::f4(), codeReadInt16(t, code, ip));
+      } break;
+
+      case fstore: {
+        frame->store(ir::Type::f4(), codeReadInt16(t, code, ip));
+      } break;
+
       case lload: {
         frame->loadLarge(ir::Type::i8(), codeReadInt16(t, code, ip));
       } break;
@@ -6423,6 +6431,14 @@ loop:
         frame->storeLarge(ir::Type::i8(), codeReadInt16(t, code, ip));
       } break;
 
+      case dload: {
+        frame->loadLarge(ir::Type::f8(), codeReadInt16(t, code, ip));
+      } break;
+
+      case dstore: {
+        frame->storeLarge(ir::Type::f8(), codeReadInt16(t, code, ip));
+      } break;
+
       case ret: {
         unsigned index = codeReadInt16(t, code, ip);
 
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 6a5fe87..ea37791 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -2956,22 +2956,26 @@ wide:
   }
     goto loop;
 
-  case iload: {
+  case iload:
+  case fload: {
     pushInt(t, localInt(t, codeReadInt16(t, code, ip)));
   }
     goto loop;
 
-  case istore: {
+  case istore:
+  case fstore: {
     setLocalInt(t, codeReadInt16(t, code, ip), popInt(t));
   }
     goto loop;
 
-  case lload: {
+  case lload:
+  case dload: {
     pushLong(t, localLong(t, codeReadInt16(t, code, ip)));
   }
     goto loop;
 
-  case lstore: {
+  case lstore:
+  case dstore: {
     setLocalLong(t, codeReadInt16(t, code, ip), popLong(t));
   }
     goto loop;
-- 
2.43.0


From 426389dd2d430f0c2baf3b02dd27aff19a739c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 035/118] fix: comparing with a constant of more than 32 bits
 clobbered a register live at the branch target

---
 src/codegen/compiler/event.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/codegen/compiler/event.cpp b/src/codegen/compiler/event.cpp
index 780b60b..cc145a5 100644
--- a/src/codegen/compiler/event.cpp
+++ b/src/codegen/compiler/event.cpp
@@ -1851,6 +1851,17 @@ void appendBranch(Context* c,
                       c->targetInfo.pointerSize,
                       &thunk);
 
+  ConstantSite* firstConstant = findConstantSite(c, firstValue);
+  if (firstConstant
+      and (not firstConstant->value->resolved()
+           or not vm::fitsInInt32(firstConstant->value->value()))) {
+    // a constant which may not be encoded in the instruction needs a
+    // register.  It must be allocated before the sites of the values
+    // live at the branch target are, since taking it from one of them
+    // when we compile the branch would be too late.
+    firstMask.typeMask &= ~lir::Operand::ConstantMask;
+  }
+
   if (thunk) {
     const size_t MaxValueCount = 4;
     FixedSliceStack<ir::Value*, MaxValueCount> slice;
-- 
2.43.0


From ac76e3c1590c61ec328670c5bc08f5b2c613b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 036/118] fix: resolve bootstrap interfaces before testing
 assignability

An array of a bootstrap interface which had not been resolved was treated
as an array of a class, and the classes were not protected across the
resolution.
---
 src/compile.cpp |  3 +++
 src/machine.cpp | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 461be50..5d39c46 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2838,6 +2838,9 @@ void NO_RETURN throw_(MyThread* t, GcThrowable* o)
 
 void checkCast(MyThread* t, GcClass* class_, object o)
 {
+  PROTECT(t, class_);
+  PROTECT(t, o);
+
   if (UNLIKELY(o and not isAssignableFrom(t, class_, objectClass(t, o)))) {
     GcByteArray* classNameFrom = objectClass(t, o)->name();
     GcByteArray* classNameTo = class_->name();
diff --git a/src/machine.cpp b/src/machine.cpp
index 2b68046..744f741 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4600,8 +4600,12 @@ bool isAssignableFrom(Thread* t, GcClass* a, GcClass* b)
   if (a == b)
     return true;
 
-  if (a->flags() & ACC_INTERFACE) {
-    if (b->vmFlags() & BootstrapFlag) {
+  // note that a bootstrap class may turn out to be an interface
+  if ((a->flags() & ACC_INTERFACE) or (a->vmFlags() & BootstrapFlag)) {
+    PROTECT(t, a);
+    PROTECT(t, b);
+
+    if ((a->flags() & ACC_INTERFACE) and (b->vmFlags() & BootstrapFlag)) {
       uintptr_t arguments[] = {reinterpret_cast<uintptr_t>(b->name())};
 
       if (run(t, resolveBootstrap, arguments) == 0) {
@@ -4619,7 +4623,13 @@ bool isAssignableFrom(Thread* t, GcClass* a, GcClass* b)
         }
       }
     }
-  } else if (a->arrayDimensions()) {
+
+    if (a->flags() & ACC_INTERFACE) {
+      return false;
+    }
+  }
+
+  if (a->arrayDimensions()) {
     if (b->arrayDimensions()) {
       return isAssignableFrom(
           t, a->arrayElementClass(), b->arrayElementClass());
-- 
2.43.0


From 4cc97348db99a5603dbf02c377f24fcef2e31d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 037/118] fix: throw ArrayStoreException on aastore

---
 src/avian/machine.h |  3 +++
 src/compile.cpp     | 18 +++++++++++++++++-
 src/interpret.cpp   |  8 ++++++++
 src/machine.cpp     | 11 +++++++++++
 src/thunks.cpp      |  1 +
 5 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index acc0524..1cf3969 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -1732,6 +1732,9 @@ object arrayBodyUnsafe(Thread*, GcArray*, unsigned);
 
 bool instanceOf(Thread* t, GcClass* class_, object o);
 
+// true if value may be stored in the specified array of references
+bool canStore(Thread* t, object array, object value);
+
 template <class T>
 T* GcObject::as(Thread* t UNUSED)
 {
diff --git a/src/compile.cpp b/src/compile.cpp
index 5d39c46..87db692 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2708,6 +2708,22 @@ void setMaybeNull(MyThread* t, object o, unsigned offset, object value)
   }
 }
 
+void setArrayElement(MyThread* t, object o, unsigned offset, object value)
+{
+  if (LIKELY(o)) {
+    PROTECT(t, o);
+    PROTECT(t, value);
+
+    if (UNLIKELY(not canStore(t, o, value))) {
+      throwNew(t, GcArrayStoreException::Type);
+    }
+
+    setField(t, o, offset, value);
+  } else {
+    throwNew(t, GcNullPointerException::Type);
+  }
+}
+
 void acquireMonitorForObject(MyThread* t, object o)
 {
   if (LIKELY(o)) {
@@ -4269,7 +4285,7 @@ loop:
       switch (instruction) {
       case aastore: {
         c->nativeCall(
-            c->constant(getThunk(t, setMaybeNullThunk), ir::Type::iptr()),
+            c->constant(getThunk(t, setArrayElementThunk), ir::Type::iptr()),
             0,
             frame->trace(0, 0),
             ir::Type::void_(),
diff --git a/src/interpret.cpp b/src/interpret.cpp
index ea37791..667d820 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -842,6 +842,14 @@ loop:
       if (LIKELY(index >= 0
                  and static_cast<uintptr_t>(index)
                      < objectArrayLength(t, array))) {
+        PROTECT(t, array);
+        PROTECT(t, value);
+
+        if (UNLIKELY(not canStore(t, array, value))) {
+          exception = makeThrowable(t, GcArrayStoreException::Type);
+          goto throw_;
+        }
+
         setField(t, array, ArrayBody + (index * BytesPerWord), value);
       } else {
         exception = makeThrowable(t,
diff --git a/src/machine.cpp b/src/machine.cpp
index 744f741..9bf3499 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4654,6 +4654,17 @@ bool instanceOf(Thread* t, GcClass* class_, object o)
   }
 }
 
+bool canStore(Thread* t, object array, object value)
+{
+  if (value == 0) {
+    return true;
+  } else {
+    GcClass* c = objectClass(t, array)->arrayElementClass();
+    return c == 0 or c == objectClass(t, value) or c == type(t, GcJobject::Type)
+           or instanceOf(t, c, value);
+  }
+}
+
 GcMethod* classInitializer(Thread* t, GcClass* class_)
 {
   if (GcArray* mtable = cast<GcArray>(t, class_->methodTable())) {
diff --git a/src/thunks.cpp b/src/thunks.cpp
index 43a2a0c..0893c49 100644
--- a/src/thunks.cpp
+++ b/src/thunks.cpp
@@ -45,6 +45,7 @@ THUNK(makeBlankObjectArrayFromReference)
 THUNK(makeBlankArray)
 THUNK(lookUpAddress)
 THUNK(setMaybeNull)
+THUNK(setArrayElement)
 THUNK(acquireMonitorForObject)
 THUNK(acquireMonitorForObjectOnEntrance)
 THUNK(releaseMonitorForObject)
-- 
2.43.0


From f857957ce2f00d3c0eff2c3ad5045b4b8a87d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 038/118] fix: check element types in System.arraycopy

Arrays of different primitive types were copied bytewise and references
were stored unchecked.
---
 src/avian/classpath-common.h | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index 78328ca..f5138f0 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -60,9 +60,9 @@ object getTrace(Thread* t, unsigned skipCount)
 
 bool compatibleArrayTypes(Thread* t UNUSED, GcClass* a, GcClass* b)
 {
+  // arrays of primitives have no object mask
   return a->arrayElementSize() and b->arrayElementSize()
-         and (a == b or (not((a->vmFlags() & PrimitiveFlag)
-                             or (b->vmFlags() & PrimitiveFlag))));
+         and (a == b or (a->objectMask() and b->objectMask()));
 }
 
 void arrayCopy(Thread* t,
@@ -83,6 +83,36 @@ void arrayCopy(Thread* t,
         if (LIKELY(length > 0)) {
           if (LIKELY(srcOffset >= 0 and srcOffset + length > srcOffset and srcOffset + length <= sl
                      and dstOffset >= 0 and dstOffset + length > dstOffset and dstOffset + length <= dl)) {
+            PROTECT(t, src);
+            PROTECT(t, dst);
+
+            if (objectClass(t, dst)->objectMask()
+                and objectClass(t, src) != objectClass(t, dst)
+                and not(objectClass(t, dst)->arrayElementClass() == 0
+                        or objectClass(t, src)->arrayElementClass() == 0
+                        or isAssignableFrom(
+                               t,
+                               objectClass(t, dst)->arrayElementClass(),
+                               objectClass(t, src)->arrayElementClass()))) {
+              // each element must be checked as it is stored
+              for (int32_t i = 0; i < length; ++i) {
+                object value = fieldAtOffset<object>(
+                    src, ArrayBody + ((srcOffset + i) * BytesPerWord));
+                PROTECT(t, value);
+
+                if (UNLIKELY(not canStore(t, dst, value))) {
+                  throwNew(t, GcArrayStoreException::Type);
+                }
+
+                setField(t,
+                         dst,
+                         ArrayBody + ((dstOffset + i) * BytesPerWord),
+                         value);
+              }
+
+              return;
+            }
+
             uint8_t* sbody = &fieldAtOffset<uint8_t>(src, ArrayBody);
             uint8_t* dbody = &fieldAtOffset<uint8_t>(dst, ArrayBody);
             if (src == dst) {
-- 
2.43.0


From eeb647405d9a7812f442a649885955f2ad0ec7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 039/118] fix: throw AbstractMethodError when an abstract
 method is invoked

---
 src/compile.cpp   | 21 +++++++++++++++------
 src/interpret.cpp |  8 ++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 87db692..691e2a3 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2438,15 +2438,20 @@ bool methodAbstract(Thread* t UNUSED, GcMethod* method)
   return method->code() == 0 and (method->flags() & ACC_NATIVE) == 0;
 }
 
+void NO_RETURN throwAbstractMethod(MyThread* t, GcMethod* target)
+{
+  throwNew(t,
+           GcAbstractMethodError::Type,
+           "%s.%s%s",
+           target->class_()->name()->body().begin(),
+           target->name()->body().begin(),
+           target->spec()->body().begin());
+}
+
 int64_t prepareMethodForCall(MyThread* t, GcMethod* target)
 {
   if (methodAbstract(t, target)) {
-    throwNew(t,
-             GcAbstractMethodError::Type,
-             "%s.%s%s",
-             target->class_()->name()->body().begin(),
-             target->name()->body().begin(),
-             target->spec()->body().begin());
+    throwAbstractMethod(t, target);
   } else {
     if (unresolved(t, methodAddress(t, target))) {
       PROTECT(t, target);
@@ -7535,6 +7540,10 @@ void* compileVirtualMethod2(MyThread* t, GcClass* class_, unsigned index)
   GcMethod* target = resolveTarget(t, class_, index);
   PROTECT(t, target);
 
+  if (methodAbstract(t, target)) {
+    throwAbstractMethod(t, target);
+  }
+
   compile(t, codeAllocator(t), 0, target);
 
   void* address = reinterpret_cast<void*>(methodAddress(t, target));
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 667d820..2b86e06 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3004,6 +3004,14 @@ back_branch:
 invoke : {
   if (method->flags() & ACC_NATIVE) {
     invokeNative(t, method);
+  } else if (UNLIKELY(method->code() == 0)) {
+    exception = makeThrowable(t,
+                              GcAbstractMethodError::Type,
+                              "%s.%s%s",
+                              method->class_()->name()->body().begin(),
+                              method->name()->body().begin(),
+                              method->spec()->body().begin());
+    goto throw_;
   } else {
     checkStack(t, method);
     pushFrame(t, method);
-- 
2.43.0


From 618efa36bf65d0ae57b5a6c26ba23c85cc342279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 040/118] fix: search interfaces for fields in the specified
 order

The interface table was walked with the wrong stride for interfaces, and
after all superclasses.
---
 src/machine.cpp | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 9bf3499..cd92ee3 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -360,18 +360,24 @@ bool walk(Thread*,
   return true;
 }
 
-object findInInterfaces(
-    Thread* t,
-    GcClass* class_,
-    GcByteArray* name,
-    GcByteArray* spec,
-    object (*find)(Thread*, GcClass*, GcByteArray*, GcByteArray*))
+// searches the class, then the interfaces it names, then its superclass
+object findFieldInHierarchy(Thread* t,
+                            GcClass* class_,
+                            GcByteArray* name,
+                            GcByteArray* spec)
 {
   object result = 0;
-  if (GcArray* itable = cast<GcArray>(t, class_->interfaceTable())) {
-    PROTECT(t, itable);
-    for (unsigned i = 0; i < itable->length() and result == 0; i += 2) {
-      result = find(t, cast<GcClass>(t, itable->body()[i]), name, spec);
+  for (; class_ and result == 0; class_ = class_->super()) {
+    result = findFieldInClass(t, class_, name, spec);
+
+    if (result == 0 and class_->addendum()) {
+      if (GcArray* itable
+          = cast<GcArray>(t, class_->addendum()->interfaceTable())) {
+        for (unsigned i = 0; i < itable->length() and result == 0; ++i) {
+          result = findFieldInHierarchy(
+              t, cast<GcClass>(t, itable->body()[i]), name, spec);
+        }
+      }
     }
   }
   return result;
@@ -5168,15 +5174,8 @@ GcField* resolveField(Thread* t,
   GcByteArray* spec = makeByteArray(t, fieldSpec);
   PROTECT(t, spec);
 
-  GcField* field = cast<GcField>(
-      t, findInInterfaces(t, class_, name, spec, findFieldInClass));
-
-  GcClass* c = class_;
-  PROTECT(t, c);
-
-  for (; c != 0 and field == 0; c = c->super()) {
-    field = cast<GcField>(t, findFieldInClass(t, c, name, spec));
-  }
+  GcField* field
+      = cast<GcField>(t, findFieldInHierarchy(t, class_, name, spec));
 
   if (field == 0) {
     throwNew(t,
@@ -5402,7 +5401,9 @@ object findInHierarchyOrNull(
     GcByteArray* spec,
     object (*find)(Thread*, GcClass*, GcByteArray*, GcByteArray*))
 {
-  GcClass* originalClass = class_;
+  if (find == findFieldInClass) {
+    return findFieldInHierarchy(t, class_, name, spec);
+  }
 
   object o = 0;
   if ((class_->flags() & ACC_INTERFACE) and class_->virtualTable()) {
@@ -5418,10 +5419,6 @@ object findInHierarchyOrNull(
     for (; o == 0 and class_; class_ = class_->super()) {
       o = find(t, class_, name, spec);
     }
-
-    if (o == 0 and find == findFieldInClass) {
-      o = findInInterfaces(t, originalClass, name, spec, find);
-    }
   }
 
   return o;
-- 
2.43.0


From 6ec66c1bdaf172c814e0427f15334d3b3fe70892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 041/118] fix: let more specific default methods override
 inherited ones

---
 src/machine.cpp | 121 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 109 insertions(+), 12 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index cd92ee3..d4526a3 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -2354,11 +2354,69 @@ GcCode* parseCode(Thread* t, Stream& s, GcSingleton* pool)
   return code;
 }
 
+// finds a method with the name and spec of the specified one among
+// those which the class itself declares, i.e. not one which was added
+// by addInterfaceMethods
+GcMethod* findDeclaredVirtual(Thread* t, GcClass* class_, GcMethod* method)
+{
+  if (GcArray* table = cast<GcArray>(t, class_->methodTable())) {
+    unsigned count = table->length();
+    if (class_->addendum()) {
+      int declared = class_->addendum()->declaredMethodCount();
+      if (declared >= 0) {
+        count = declared;
+      }
+    }
+
+    for (unsigned i = 0; i < count; ++i) {
+      GcMethod* m = cast<GcMethod>(t, table->body()[i]);
+      if (methodVirtual(t, m) and methodEqual(t, m, method)) {
+        return m;
+      }
+    }
+  }
+  return 0;
+}
+
+// finds the declaration of the specified method in the superinterfaces
+// of the class which is not overridden in another of them
+GcMethod* findMostSpecific(Thread* t, GcClass* class_, GcMethod* method)
+{
+  GcMethod* result = 0;
+  if (GcArray* itable = cast<GcArray>(t, class_->interfaceTable())) {
+    unsigned stride = (class_->flags() & ACC_INTERFACE) ? 1 : 2;
+    for (unsigned i = 0; i < itable->length(); i += stride) {
+      GcClass* interface = cast<GcClass>(t, itable->body()[i]);
+      GcMethod* m = findDeclaredVirtual(t, interface, method);
+      bool overridden = m == 0;
+
+      for (unsigned j = 0; j < itable->length() and not overridden;
+           j += stride) {
+        GcClass* other = cast<GcClass>(t, itable->body()[j]);
+        GcArray* supers = cast<GcArray>(t, other->interfaceTable());
+        for (unsigned k = 0; supers and k < supers->length(); ++k) {
+          if (supers->body()[k] == interface) {
+            overridden = findDeclaredVirtual(t, other, method) != 0;
+            break;
+          }
+        }
+      }
+
+      if (not overridden and (result == 0
+                              or (result->code() == 0 and m->code()))) {
+        result = m;
+      }
+    }
+  }
+  return result;
+}
+
 GcList* addInterfaceMethods(Thread* t,
                             GcClass* class_,
                             GcHashMap* virtualMap,
                             unsigned* virtualCount,
-                            bool makeList)
+                            bool makeList,
+                            bool* overridden)
 {
   GcArray* itable = cast<GcArray>(t, class_->interfaceTable());
   if (itable) {
@@ -2384,7 +2442,46 @@ GcList* addInterfaceMethods(Thread* t,
           method = cast<GcMethod>(t, vtable->body()[j]);
           GcTriple* n
               = hashMapFindNode(t, virtualMap, method, methodHash, methodEqual);
+
+          if (n and (class_->flags() & ACC_INTERFACE) == 0) {
+            // a default method may override one which the superclass
+            // got from an interface, but not one declared in a class
+            GcMethod* existing = cast<GcMethod>(t, n->second());
+            GcClass* owner = existing->class_();
+
+            if (owner != class_ and owner->interfaceTable()
+                and findDeclaredVirtual(t, owner, existing) == 0) {
+              GcMethod* m = findMostSpecific(t, class_, existing);
+
+              if (m and m != findMostSpecific(t, owner, existing)) {
+                PROTECT(t, n);
+
+                GcMethod* replacement = makeMethod(t,
+                                                   m->vmFlags(),
+                                                   m->returnCode(),
+                                                   m->parameterCount(),
+                                                   m->parameterFootprint(),
+                                                   m->flags(),
+                                                   existing->offset(),
+                                                   0,
+                                                   0,
+                                                   m->name(),
+                                                   m->spec(),
+                                                   0,
+                                                   class_,
+                                                   m->code());
+
+                n->setSecond(t, replacement);
+                *overridden = true;
+              }
+            }
+          }
+
           if (n == 0) {
+            if (GcMethod* m = findMostSpecific(t, class_, method)) {
+              method = m;
+            }
+
             method = makeMethod(t,
                                 method->vmFlags(),
                                 method->returnCode(),
@@ -2629,14 +2726,16 @@ void parseMethodTable(Thread* t, Stream& s, GcClass* class_, GcSingleton* pool)
     class_->setMethodTable(t, methodTable);
   }
 
-  GcList* abstractVirtuals
-      = addInterfaceMethods(t, class_, virtualMap, &virtualCount, true);
+  bool overridden = false;
+
+  GcList* abstractVirtuals = addInterfaceMethods(
+      t, class_, virtualMap, &virtualCount, true, &overridden);
 
   PROTECT(t, abstractVirtuals);
 
   bool populateInterfaceVtables = false;
 
-  if (declaredVirtualCount == 0 and abstractVirtuals == 0
+  if (declaredVirtualCount == 0 and abstractVirtuals == 0 and not overridden
       and (class_->flags() & ACC_INTERFACE) == 0) {
     if (class_->super()) {
       // inherit virtual table from superclass
@@ -2884,14 +2983,12 @@ void updateClassTables(Thread* t, GcClass* newClass, GcClass* oldClass)
     staticTable->setBodyElement(t, 0, reinterpret_cast<uintptr_t>(newClass));
   }
 
-  if (newClass->flags() & ACC_INTERFACE) {
-    GcArray* virtualTable = cast<GcArray>(t, newClass->virtualTable());
-    if (virtualTable) {
-      for (unsigned i = 0; i < virtualTable->length(); ++i) {
-        GcMethod* m = cast<GcMethod>(t, virtualTable->body()[i]);
-        if (m->class_() == oldClass) {
-          m->setClass(t, newClass);
-        }
+  GcArray* virtualTable = cast<GcArray>(t, newClass->virtualTable());
+  if (virtualTable) {
+    for (unsigned i = 0; i < virtualTable->length(); ++i) {
+      GcMethod* m = cast<GcMethod>(t, virtualTable->body()[i]);
+      if (m->class_() == oldClass) {
+        m->setClass(t, newClass);
       }
     }
   }
-- 
2.43.0


From 11edd045741212e89a59d2bf9766098235c4a17f Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 042/118] fix: ArrayList.add throws when the index is out of
 range

It padded the list with nulls, or changed the size before failing.
---
 classpath/java/util/ArrayList.java | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/classpath/java/util/ArrayList.java b/classpath/java/util/ArrayList.java
index 14e2dc3..9011a3b 100644
--- a/classpath/java/util/ArrayList.java
+++ b/classpath/java/util/ArrayList.java
@@ -83,10 +83,12 @@ public class ArrayList<T> extends AbstractList<T> implements java.io.Serializabl
   }
 
   public void add(int index, T element) {
-    int newSize = Math.max(size+1, index+1);
-    grow(newSize);
-    size = newSize;
-    System.arraycopy(array, index, array, index+1, size-index-1);
+    if (index < 0 || index > size) {
+      throw new IndexOutOfBoundsException(index + " not in [0, " + size + "]");
+    }
+    grow(size + 1);
+    System.arraycopy(array, index, array, index + 1, size - index);
+    ++ size;
     array[index] = element;
   }
 
-- 
2.43.0


From 19164c768ec7fb5dd1db0459e10e785aa63848a5 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 043/118] fix: addAll of an empty collection does not change a
 list

---
 classpath/java/util/ArrayList.java  | 2 +-
 classpath/java/util/LinkedList.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/ArrayList.java b/classpath/java/util/ArrayList.java
index 9011a3b..08ff7d0 100644
--- a/classpath/java/util/ArrayList.java
+++ b/classpath/java/util/ArrayList.java
@@ -99,7 +99,7 @@ public class ArrayList<T> extends AbstractList<T> implements java.io.Serializabl
 
   public boolean addAll(Collection<? extends T> collection) {
     for (T t: collection) add(t);
-    return true;
+    return ! collection.isEmpty();
   }
 
   public int indexOf(Object element) {
diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index 6896b1e..d82d37a 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -133,7 +133,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   @Override
   public boolean addAll(Collection<? extends T> collection) {
     for (T t: collection) add(t);
-    return true;
+    return ! collection.isEmpty();
   }
 
   @Override
-- 
2.43.0


From 4646655479533937b63775bada77d0bfc4ce5e97 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 044/118] fix: LinkedList.add(int, T) appends at the end and
 keeps size and links

---
 classpath/java/util/LinkedList.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index d82d37a..9b53b8b 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -140,10 +140,14 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   public void add(int index, T element) {
     if (index == 0) {
       addFirst(element);
+    } else if (index == size) {
+      addLast(element);
     } else {
       Cell<T> cell = find(index);
       Cell<T> newCell = new Cell(element, cell.prev, cell);
       cell.prev.next = newCell;
+      cell.prev = newCell;
+      ++ size;
     }
   }
 
-- 
2.43.0


From 40dc677ff5f83ad07f5a0621dba50fc917a28f1d Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 045/118] fix: LinkedList.pollLast returns null when empty, and
 null elements can be removed

---
 classpath/java/util/LinkedList.java | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index 9b53b8b..b412d92 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -263,12 +263,10 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
 
   @Override
   public T removeFirst() {
-    T result = pollFirst();
-    
-    if (result == null) {
+    if (front == null) {
       throw new NoSuchElementException();
     } else {
-      return result;
+      return pollFirst();
     }
   }
 
@@ -289,18 +287,16 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
       remove(rear);
       return v;
     } else {
-      throw new NoSuchElementException();
+      return null;
     }
   }
 
   @Override
   public T removeLast() {
-    T result = pollLast();
-    
-    if (result == null) {
+    if (rear == null) {
       throw new NoSuchElementException();
     } else {
-      return result;
+      return pollLast();
     }
   }
 
@@ -369,12 +365,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
 
   @Override
   public T element() {
-    T result = peek();
-    if (result == null) {
-      throw new NoSuchElementException();
-    } else {
-      return result;
-    }
+    return getFirst();
   }
 
   @Override
-- 
2.43.0


From 921ea5136d7add2a65d9b0b2f4bb1009dddc1016 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 046/118] fix: LinkedList.remove{First,Last}Occurrence can
 remove the first element

---
 classpath/java/util/LinkedList.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index b412d92..a660f19 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -371,7 +371,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   @Override
   public boolean removeFirstOccurrence(Object o) {
     int index = indexOf(o);
-    if (index > 0) {
+    if (index >= 0) {
       remove(index);
       
       return true;
@@ -383,7 +383,7 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   @Override
   public boolean removeLastOccurrence(Object o) {
     int lastIndex = lastIndexOf(o);
-    if (lastIndex > 0) {
+    if (lastIndex >= 0) {
       remove(lastIndex);
       
       return true;
-- 
2.43.0


From b7485d2ab663b20a38f9698f72f0e3cbf03e47fc Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 047/118] fix: listIterator throws when the index is out of
 range

---
 classpath/java/util/Collections.java | 4 ++++
 classpath/java/util/LinkedList.java  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/classpath/java/util/Collections.java b/classpath/java/util/Collections.java
index 9a6f998..99facc4 100644
--- a/classpath/java/util/Collections.java
+++ b/classpath/java/util/Collections.java
@@ -469,6 +469,10 @@ public class Collections {
     }
 
     public ArrayListIterator(List<T> list, int index) {
+      if (index < 0 || index > list.size()) {
+        throw new IndexOutOfBoundsException
+          (index + " not in [0, " + list.size() + "]");
+      }
       this.list = list;
       this.index = index - 1;
     }
diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index a660f19..5ca3320 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -329,10 +329,14 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
 
   @Override
   public ListIterator<T> listIterator(int index) {
+    if (index < 0 || index > size) {
+      throw new IndexOutOfBoundsException(index + " not in [0, " + size + "]");
+    }
     MyIterator it = new MyIterator();
     for (int i = 0; i < index; ++i) {
       it.next();
     }
+    it.toRemove = null;
     return it;
   }
 
-- 
2.43.0


From 5b9b20ed313562cb2e38ba13cbee8004080acfef Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 048/118] fix: an empty Stack throws EmptyStackException

---
 classpath/java/util/Stack.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classpath/java/util/Stack.java b/classpath/java/util/Stack.java
index 9d7def9..7ca4993 100644
--- a/classpath/java/util/Stack.java
+++ b/classpath/java/util/Stack.java
@@ -16,10 +16,12 @@ public class Stack<T> extends Vector<T> {
   }
 
   public T peek() {
+    if (empty()) throw new EmptyStackException();
     return get(size() - 1);
   }
 
   public T pop() {
+    if (empty()) throw new EmptyStackException();
     return remove(size() - 1);
   }
 
-- 
2.43.0


From 816ce06b4f3cd51148886f5132a027826d397612 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 049/118] fix: Arrays.binarySearch searches the whole array

---
 classpath/java/util/Arrays.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/Arrays.java b/classpath/java/util/Arrays.java
index 7fb756c..38ceae4 100644
--- a/classpath/java/util/Arrays.java
+++ b/classpath/java/util/Arrays.java
@@ -688,7 +688,7 @@ public class Arrays {
   }
 
   public static int binarySearch(int[] a, int key) {
-    return binarySearch(a, 0, a.length - 1, key);
+    return binarySearch(a, 0, a.length, key);
   }
 
   public static int binarySearch(int[] a, int fromIndex, int toIndex, int key) {
-- 
2.43.0


From 44b53bc182ad291154d567487a136d775b110087 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 050/118] fix: toArray terminates the elements with null in a
 longer array

---
 classpath/avian/Data.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/avian/Data.java b/classpath/avian/Data.java
index 58ddbf0..2ff30da 100644
--- a/classpath/avian/Data.java
+++ b/classpath/avian/Data.java
@@ -44,6 +44,10 @@ public class Data {
       }
     }
 
+    if (i < array.length) {
+      array[i] = null;
+    }
+
     return array;
   }
 
-- 
2.43.0


From 935f8f560e15a3da23b6f98908a5427117c0721a Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 051/118] fix: removeAll removes every occurrence of an element

---
 classpath/java/util/AbstractCollection.java | 5 ++++-
 classpath/java/util/ArrayDeque.java         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/AbstractCollection.java b/classpath/java/util/AbstractCollection.java
index d6b6dda..f944da5 100644
--- a/classpath/java/util/AbstractCollection.java
+++ b/classpath/java/util/AbstractCollection.java
@@ -84,7 +84,10 @@ public abstract class AbstractCollection<T> implements Collection<T> {
 
     Iterator<?> it = c.iterator();
     while (it.hasNext()) {
-      changed = remove(it.next()) || changed;
+      Object o = it.next();
+      while (remove(o)) {
+        changed = true;
+      }
     }
 
     return changed;
diff --git a/classpath/java/util/ArrayDeque.java b/classpath/java/util/ArrayDeque.java
index 8801806..aa6d34c 100644
--- a/classpath/java/util/ArrayDeque.java
+++ b/classpath/java/util/ArrayDeque.java
@@ -176,7 +176,10 @@ public class ArrayDeque<T> extends AbstractDeque<T>
     boolean removed = false;
     Iterator<?> it = c.iterator();
     while (it.hasNext()) {
-      removed = remove(it.next()) || removed;
+      Object o = it.next();
+      while (remove(o)) {
+        removed = true;
+      }
     }
     
     return removed;
-- 
2.43.0


From 89ca1c156f6d1343255e543630423c21bc3631af Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 052/118] fix: ArrayDeque can grow from capacity zero and by
 more than doubling

---
 classpath/java/util/ArrayDeque.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/classpath/java/util/ArrayDeque.java b/classpath/java/util/ArrayDeque.java
index aa6d34c..585952e 100644
--- a/classpath/java/util/ArrayDeque.java
+++ b/classpath/java/util/ArrayDeque.java
@@ -36,7 +36,9 @@ public class ArrayDeque<T> extends AbstractDeque<T>
   }
   
   private void copyInto(Object[] array) {
-    if (startIndex <= endIndex) {
+    if (size == 0) {
+      return;
+    } else if (startIndex <= endIndex) {
       // only one copy needed
       System.arraycopy(dataArray, startIndex, array, 0, size);
     } else {
@@ -48,12 +50,12 @@ public class ArrayDeque<T> extends AbstractDeque<T>
   
   private void ensureCapacity(int newSize) {
     if (dataArray.length < newSize) {
-      Object[] newArray = new Object[dataArray.length * 2];
+      Object[] newArray = new Object[Math.max(newSize, dataArray.length * 2)];
       copyInto(newArray);
       
       dataArray = newArray;
       startIndex = 0;
-      endIndex = size - 1;
+      endIndex = Math.max(size - 1, 0);
     }
   }
 
-- 
2.43.0


From 39ed84848c65708ff250ae4f04df2abeadc4bd49 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 053/118] fix: ArrayDeque.descendingIterator follows a wrapped
 deque

---
 classpath/java/util/ArrayDeque.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/ArrayDeque.java b/classpath/java/util/ArrayDeque.java
index 585952e..4f34fdb 100644
--- a/classpath/java/util/ArrayDeque.java
+++ b/classpath/java/util/ArrayDeque.java
@@ -290,8 +290,8 @@ public class ArrayDeque<T> extends AbstractDeque<T>
     return new GenericIterator() {
       @Override
       protected int getArrayIndex() {
-        int result = (endIndex - currentIndex) % dataArray.length;
-        return result;
+        int result = endIndex - currentIndex;
+        return result < 0 ? result + dataArray.length : result;
       }
     };
   }
-- 
2.43.0


From 4a0b142ef47174d836e867361aa7cd947d49a550 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 054/118] fix: removing through an ArrayDeque iterator

Elements were lost, or copied from out of range, when the deque was wrapped
or full.
---
 classpath/java/util/ArrayDeque.java | 36 +++++++++++------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/classpath/java/util/ArrayDeque.java b/classpath/java/util/ArrayDeque.java
index 4f34fdb..2a28dba 100644
--- a/classpath/java/util/ArrayDeque.java
+++ b/classpath/java/util/ArrayDeque.java
@@ -299,6 +299,7 @@ public class ArrayDeque<T> extends AbstractDeque<T>
   private abstract class GenericIterator implements Iterator<T> {
     protected int expectedModCount = modCount;
     protected int currentIndex = 0;
+    private boolean canRemove = false;
     
     protected abstract int getArrayIndex();
     
@@ -313,6 +314,7 @@ public class ArrayDeque<T> extends AbstractDeque<T>
       @SuppressWarnings("unchecked")
       T result = (T)dataArray[getArrayIndex()];
       currentIndex++;
+      canRemove = true;
       
       return result;
     }
@@ -324,6 +326,10 @@ public class ArrayDeque<T> extends AbstractDeque<T>
     
     @Override
     public void remove() {
+      if (! canRemove) {
+        throw new IllegalStateException();
+      }
+      canRemove = false;
       currentIndex--;
       
       int removalIndex = getArrayIndex();
@@ -337,32 +343,18 @@ public class ArrayDeque<T> extends AbstractDeque<T>
         expectedModCount = modCount;
       } else {  // array must be copied
         Object[] newArray = new Object[dataArray.length];
-        if (startIndex <= endIndex) {
-          int firstCopyCount = removalIndex - startIndex;
-          System.arraycopy(dataArray, startIndex, 
-                           newArray, 0, firstCopyCount);
-          System.arraycopy(dataArray, removalIndex + 1, 
-                           newArray, firstCopyCount, size - firstCopyCount);
-        } else if (removalIndex > startIndex) {
-          int firstCopyCount = removalIndex - startIndex;
-          System.arraycopy(dataArray, startIndex, 
-                           newArray, 0, firstCopyCount);
-          System.arraycopy(dataArray, startIndex + firstCopyCount + 1, 
-                           newArray, firstCopyCount, dataArray.length - removalIndex - 1);
-          System.arraycopy(dataArray, 0, newArray, size - removalIndex, endIndex + 1);
-        } else {
-          int firstCopyCount = dataArray.length - startIndex;
-          System.arraycopy(dataArray, startIndex, 
-                           newArray, 0, firstCopyCount);
-          System.arraycopy(dataArray, 0, 
-                           newArray, firstCopyCount, removalIndex);
-          System.arraycopy(dataArray, removalIndex + 1, 
-                           newArray, firstCopyCount + removalIndex, endIndex - removalIndex);
+        int count = 0;
+        for (int i = 0; i < size; ++i) {
+          int index = (startIndex + i) % dataArray.length;
+          if (index != removalIndex) {
+            newArray[count++] = dataArray[index];
+          }
         }
-        
+
         dataArray = newArray;
         startIndex = 0;
         endIndex = --size - 1;
+        expectedModCount = ++modCount;
       }
     }
   }
-- 
2.43.0


From e59afb74c9c6e48ed6273f69146133ad099284f8 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 055/118] fix: check the range given to System.arraycopy
 without overflow

---
 src/avian/classpath-common.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index f5138f0..7a15005 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -80,9 +80,16 @@ void arrayCopy(Thread* t,
       if (LIKELY(elementSize)) {
         intptr_t sl = fieldAtOffset<uintptr_t>(src, BytesPerWord);
         intptr_t dl = fieldAtOffset<uintptr_t>(dst, BytesPerWord);
-        if (LIKELY(length > 0)) {
-          if (LIKELY(srcOffset >= 0 and srcOffset + length > srcOffset and srcOffset + length <= sl
-                     and dstOffset >= 0 and dstOffset + length > dstOffset and dstOffset + length <= dl)) {
+        if (LIKELY(length >= 0)) {
+          // computed in 64 bits, as the sums may overflow 32
+          if (LIKELY(srcOffset >= 0
+                     and static_cast<int64_t>(srcOffset) + length <= sl
+                     and dstOffset >= 0
+                     and static_cast<int64_t>(dstOffset) + length <= dl)) {
+            if (length == 0) {
+              return;
+            }
+
             PROTECT(t, src);
             PROTECT(t, dst);
 
@@ -133,11 +140,8 @@ void arrayCopy(Thread* t,
           } else {
             throwNew(t, GcIndexOutOfBoundsException::Type);
           }
-        } else if (LIKELY(length < 0)) {
-          throwNew(t, GcIndexOutOfBoundsException::Type, "%d", length);
-          return;
         } else {
-          return;
+          throwNew(t, GcIndexOutOfBoundsException::Type, "%d", length);
         }
       }
     }
-- 
2.43.0


From d2a08e5a6306b38de866d36d84381bb19ad154a7 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 056/118] fix: String range checks: index at the end, overflow,
 inverted ranges

---
 classpath/java/lang/String.java | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index be45b3c..dbb3cb6 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -93,10 +93,10 @@ public final class String
   public String(byte bytes[], int highByte, int offset, int length) {
     if (offset < 0 )
       throw new StringIndexOutOfBoundsException(offset);
-    else if (offset + length > bytes.length)
-      throw new StringIndexOutOfBoundsException(offset + length);
     else if (length < 0)
       throw new StringIndexOutOfBoundsException(length);
+    else if (offset > bytes.length - length)
+      throw new StringIndexOutOfBoundsException(offset + length);
 
     char[] c = new char[length];
     int mask = highByte << 8;
@@ -119,10 +119,10 @@ public final class String
 
     if (offset < 0 )
       throw new StringIndexOutOfBoundsException(offset);
-    else if (offset + length > l)
-      throw new StringIndexOutOfBoundsException(offset + length);
     else if (length < 0)
       throw new StringIndexOutOfBoundsException(length);
+    else if (offset > l - length)
+      throw new StringIndexOutOfBoundsException(offset + length);
 
     if(!copy && Utf8.test(data)) copy = true;
 
@@ -429,10 +429,10 @@ public final class String
   {
     if (srcOffset < 0)
       throw new StringIndexOutOfBoundsException(srcOffset);
-    else if (srcOffset + srcLength > length)
-      throw new StringIndexOutOfBoundsException(srcOffset + srcLength);
     else if (srcLength < 0)
       throw new StringIndexOutOfBoundsException(srcLength);
+    else if (srcOffset > length - srcLength)
+      throw new StringIndexOutOfBoundsException(srcOffset + srcLength);
 
     if (data instanceof char[]) {
       char[] src = (char[]) data;
@@ -482,6 +482,9 @@ public final class String
       throw new StringIndexOutOfBoundsException(srcEnd);
 
     int srcLength = srcEnd-srcOffset;
+    if (srcLength < 0)
+      throw new StringIndexOutOfBoundsException(srcLength);
+
     if (data instanceof char[]) {
       char[] src = (char[]) data;
       System.arraycopy(src, offset + srcOffset, dst, dstOffset, srcLength);
@@ -501,7 +504,7 @@ public final class String
 
   @Override
   public char charAt(int index) {
-    if (index < 0 || index > length) {
+    if (index < 0 || index >= length) {
       throw new StringIndexOutOfBoundsException(index);
     }
 
-- 
2.43.0


From 9c1ce65c7c1f0f6105fba458d01c89fe01896216 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 057/118] fix: String.indexOf and lastIndexOf clamp the start
 index

---
 classpath/java/lang/String.java | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index dbb3cb6..b426544 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -287,6 +287,8 @@ public final class String
   }
 
   public int indexOf(int c, int start) {
+    if (start < 0) start = 0;
+
     for (int i = start; i < length; ++i) {
       if (charAt(i) == c) {
         return i;
@@ -305,7 +307,8 @@ public final class String
   }
 
   public int indexOf(String s, int start) {
-    if (s.length == 0) return start;
+    if (start < 0) start = 0;
+    if (s.length == 0) return start < length ? start : length;
 
     for (int i = start; i < length - s.length + 1; ++i) {
       int j = 0;
@@ -327,8 +330,6 @@ public final class String
   }
 
   public int lastIndexOf(String s, int lastIndex) {
-    if (s.length == 0) return lastIndex;
-
     for (int i = Math.min(length - s.length, lastIndex); i >= 0; --i) {
       int j = 0;
       for (; j < s.length && i + j < length; ++j) {
-- 
2.43.0


From 5fa63c6063a5b153f3fc8f6a056d62377d0106b2 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 058/118] fix: String.startsWith at an offset, regionMatches
 out of range

---
 classpath/java/lang/String.java | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index b426544..2159407 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -402,8 +402,8 @@ public final class String
   }
 
   public boolean startsWith(String s, int start) {
-    if (length >= s.length + start) {
-      return substring(start, s.length).compareTo(s) == 0;
+    if (start >= 0 && start <= length - s.length) {
+      return substring(start, start + s.length).compareTo(s) == 0;
     } else {
       return false;
     }
@@ -659,6 +659,15 @@ public final class String
   public boolean regionMatches(boolean ignoreCase, int thisOffset,
                                String match, int matchOffset, int length)
   {
+    if (thisOffset < 0 || matchOffset < 0
+        || thisOffset > (long) this.length - length
+        || matchOffset > (long) match.length - length)
+    {
+      return false;
+    } else if (length <= 0) {
+      return true;
+    }
+
     String a = substring(thisOffset, thisOffset + length);
     String b = match.substring(matchOffset, matchOffset + length);
     if (ignoreCase) {
-- 
2.43.0


From bda2c02662fcd8326ee36eb3f2a1aa0af49ffcb7 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 059/118] fix: String.replace with a character that is not
 ASCII

---
 classpath/java/lang/String.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index 2159407..54278df 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -346,7 +346,7 @@ public final class String
   }
 
   public String replace(char oldChar, char newChar) {
-    if (data instanceof char[]) {
+    if (data instanceof char[] || oldChar > 0x7F || newChar > 0x7F) {
       char[] buf = new char[length];
       for (int i=0; i < length; i++) {
         if (charAt(i) == oldChar) {
-- 
2.43.0


From 7a2f147c41317bc51dd0876321596eee47ac5127 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 060/118] fix: String.trim removes every character up to the
 space

---
 classpath/java/lang/String.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index 54278df..1525bf2 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -232,7 +232,7 @@ public final class String
     int start = -1;
     for (int i = 0; i < length; ++i) {
       char c = charAt(i);
-      if (start == -1 && ! Character.isWhitespace(c)) {
+      if (start == -1 && c > ' ') {
         start = i;
         break;
       }
@@ -241,7 +241,7 @@ public final class String
     int end = -1;
     for (int i = length - 1; i >= 0; --i) {
       char c = charAt(i);
-      if (end == -1 && ! Character.isWhitespace(c)) {
+      if (end == -1 && c > ' ') {
         end = i + 1;
         break;
       }
-- 
2.43.0


From 5c22fc03e081410f27998126d42e694d8f5e85d5 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 061/118] fix: decode ISO-8859-1 bytes given to the String
 constructor as such

---
 classpath/java/lang/String.java | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/classpath/java/lang/String.java b/classpath/java/lang/String.java
index 1525bf2..2303a7a 100644
--- a/classpath/java/lang/String.java
+++ b/classpath/java/lang/String.java
@@ -60,12 +60,18 @@ public final class String
   public String(byte bytes[], int offset, int length, String charsetName)
     throws UnsupportedEncodingException
   {
-    this(bytes, offset, length);
-    if (! (charsetName.equalsIgnoreCase(UTF_8_ENCODING)
-           || charsetName.equalsIgnoreCase(ISO_8859_1_ENCODING)))
-    {
+    String s;
+    if (charsetName.equalsIgnoreCase(UTF_8_ENCODING)) {
+      s = new String(bytes, offset, length);
+    } else if (charsetName.equalsIgnoreCase(ISO_8859_1_ENCODING)) {
+      s = new String(bytes, 0, offset, length);
+    } else {
       throw new UnsupportedEncodingException(charsetName);
     }
+
+    this.data = s.data;
+    this.offset = s.offset;
+    this.length = s.length;
   }
 
   public String(byte[] data, int offset, int length, boolean copy) {
-- 
2.43.0


From ddc1c260c079d0602795a868126b56d6ebf309e6 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 062/118] fix: encode and decode U+0000 in UTF-8 as one byte,
 as for ASCII strings

---
 classpath/avian/Utf8.java | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/classpath/avian/Utf8.java b/classpath/avian/Utf8.java
index 2c32fec..aebda3e 100644
--- a/classpath/avian/Utf8.java
+++ b/classpath/avian/Utf8.java
@@ -26,10 +26,7 @@ public class Utf8 {
     ByteArrayOutputStream buf = new ByteArrayOutputStream();
     for (int i = offset; i < offset+length; ++i) {
       char c = s16[i];
-      if (c == '\u0000') {     // null char
-        buf.write(0);
-        buf.write(0);
-      } else if (c < 0x080) {  // 1 byte char
+      if (c < 0x080) {  // 1 byte char
         buf.write(c);
       } else if (c < 0x0800) { // 2 byte char
         buf.write(0x0c0 | (c >>> 6));
@@ -50,12 +47,6 @@ public class Utf8 {
     while (i < offset+length) {
       int x = s8[i++];
       if ((x & 0x080) == 0x0) {          // 1 byte char
-        if (x == 0) {                    // 2 byte null char
-          if (i == offset + length) {
-            return null;
-          }
-          ++ i;
-        }
         cram(buf, j++, x);
       } else if ((x & 0x0e0) == 0x0c0) { // 2 byte char
         if (i == offset + length) {
-- 
2.43.0


From 520962a942dec3ef290caf991943856f2f3afdb1 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 063/118] fix: StringBuilder appends and inserts null as "null"

---
 classpath/java/lang/StringBuilder.java | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index 8e78d1f..a44ad58 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -59,11 +59,12 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder append(CharSequence sequence) {
-    return append(sequence.toString());
+    return append(String.valueOf(sequence));
   }
 
   public StringBuilder append(CharSequence sequence, int start, int end) {
-    return append(sequence.subSequence(start, end));
+    return append((sequence == null ? "null" : sequence)
+                  .subSequence(start, end));
   }
 
   public StringBuilder append(char[] b, int offset, int length) {
@@ -133,6 +134,10 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder insert(int i, String s) {
+    if (s == null) {
+      s = "null";
+    }
+
     if (i < 0 || i > length) {
       throw new IndexOutOfBoundsException();
     }
@@ -166,7 +171,7 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder insert(int i, CharSequence s) {
-    return insert(i, s.toString());
+    return insert(i, String.valueOf(s));
   }
 
   public StringBuilder insert(int i, char c) {
-- 
2.43.0


From 9886e0d2b305c4eaca3c8eccb839574e3db3d0ba Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 064/118] fix: StringBuilder.delete clamps the end and rejects
 an inverted range

---
 classpath/java/lang/StringBuilder.java | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index a44ad58..a8d0408 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -183,12 +183,16 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder delete(int start, int end) {
-    if (start >= end) {
-      return this;
+    if (end > length) {
+      end = length;
     }
 
-    if (start < 0 || end > length) {
-      throw new IndexOutOfBoundsException();
+    if (start < 0 || start > end) {
+      throw new StringIndexOutOfBoundsException(start);
+    }
+
+    if (start == end) {
+      return this;
     }
 
     flush();
@@ -229,6 +233,10 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder deleteCharAt(int i) {
+    if (i < 0 || i >= length) {
+      throw new StringIndexOutOfBoundsException(i);
+    }
+
     return delete(i, i + 1);
   }
 
-- 
2.43.0


From bff0abd5658fad43773ecc591e5cf28ddee72bdc Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 065/118] fix: StringBuilder.delete in the middle of the chain
 of cells

---
 classpath/java/lang/StringBuilder.java | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index a8d0408..9c1c43d 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -199,12 +199,15 @@ public class StringBuilder implements CharSequence, Appendable {
 
     int index = length;
     Cell p = null;
-    for (Cell c = chain; c != null; c = c.next) {
+    for (Cell c = chain; c != null && index > start; c = c.next) {
       int e = index;
       int s = index - c.value.length();
       index = s;
       
-      if (end >= e) {
+      if (s >= end) {
+        // after the deleted range
+        p = c;
+      } else if (end >= e) {
         if (start <= s) {
           if (p == null) {
             chain = c.next;
@@ -218,6 +221,7 @@ public class StringBuilder implements CharSequence, Appendable {
       } else {
         if (start <= s) {
           c.value = c.value.substring(end - s, e - s);
+          p = c;
         } else {
           String v = c.value;
           c.value = v.substring(end - s, e - s);
-- 
2.43.0


From b79eb51496d4cc43e4254bc638209bce5002541e Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 066/118] fix: StringBuilder.setLength drops buffered
 characters and pads with nulls

---
 classpath/java/lang/StringBuilder.java | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index 9c1c43d..c9cbe7b 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -308,6 +308,13 @@ public class StringBuilder implements CharSequence, Appendable {
     if (v == 0) {
       length = 0;
       chain = null;
+      buffer = null;
+      position = 0;
+      return;
+    }
+
+    if (v > length) {
+      append(new char[v - length]);
       return;
     }
 
-- 
2.43.0


From addc1ed32f6be76c033958d9928769a3b7ac830e Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 067/118] fix: StringBuilder.indexOf and lastIndexOf clamp the
 start index

---
 classpath/java/lang/StringBuilder.java | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index c9cbe7b..0451913 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -256,7 +256,8 @@ public class StringBuilder implements CharSequence, Appendable {
   
   public int indexOf(String s, int start) {
     int slength = s.length();
-    if (slength == 0) return start;
+    if (start < 0) start = 0;
+    if (slength == 0) return start < length ? start : length;
 
     for (int i = start; i < length - slength + 1; ++i) {
       int j = 0;
@@ -279,8 +280,6 @@ public class StringBuilder implements CharSequence, Appendable {
 
   public int lastIndexOf(String s, int lastIndex) {
     int slength = s.length();
-    if (slength == 0) return lastIndex;
-
     for (int i = Math.min(length - slength, lastIndex); i >= 0; --i) {
       int j = 0;
       for (; j < slength && i + j < length; ++j) {
-- 
2.43.0


From 7ab5f1afb340c39b8863c235142f47e621554b0c Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 068/118] fix: StringBuilder.substring and getChars reject
 inverted ranges

---
 classpath/java/lang/StringBuilder.java | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index 0451913..cd5a0d6 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -337,7 +337,7 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public void getChars(int srcStart, int srcEnd, char[] dst, int dstStart) {
-    if (srcStart < 0 || srcEnd > length) {
+    if (srcStart < 0 || srcEnd > length || srcStart > srcEnd) {
       throw new IndexOutOfBoundsException();
     }
 
@@ -385,6 +385,10 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public String substring(int start, int end) {
+    if (start < 0 || end > length || start > end) {
+      throw new StringIndexOutOfBoundsException(start);
+    }
+
     int len = end-start;
     char[] buf = new char[len]; 
     getChars(start, end, buf, 0);
-- 
2.43.0


From e2f306378efb9c3a4aeba9f8645150639ccab45f Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 069/118] fix: BitSet.set and clear of an empty, inverted or
 distant range

---
 classpath/java/util/BitSet.java | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/BitSet.java b/classpath/java/util/BitSet.java
index c76016a..f535773 100644
--- a/classpath/java/util/BitSet.java
+++ b/classpath/java/util/BitSet.java
@@ -108,10 +108,15 @@ public class BitSet implements Serializable, Cloneable {
     flip(index, index+1);
   }
 
-  public void flip(int fromIndex, int toIndex) {
+  private static void checkRange(int fromIndex, int toIndex) {
     if (fromIndex > toIndex || fromIndex < 0 || toIndex < 0) {
       throw new IndexOutOfBoundsException();
-    } else if (fromIndex != toIndex) {
+    }
+  }
+
+  public void flip(int fromIndex, int toIndex) {
+    checkRange(fromIndex, toIndex);
+    if (fromIndex != toIndex) {
       MaskInfoIterator iter = new MaskInfoIterator(fromIndex, toIndex);
       enlarge(iter.getLastPartition());
       while (iter.hasNext()) {
@@ -128,6 +133,10 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   public void set(int start, int end) {
+    checkRange(start, end);
+    if (start == end) {
+      return;
+    }
     MaskInfoIterator iter = new MaskInfoIterator(start, end);
     enlarge(iter.getLastPartition());
     while (iter.hasNext()) {
@@ -144,6 +153,11 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   public void clear(int start, int end) {
+    checkRange(start, end);
+    end = Math.min(end, bits.length << BITS_PER_LONG_SHIFT);
+    if (start >= end) {
+      return;
+    }
     MaskInfoIterator iter = new MaskInfoIterator(start, end);
     while (iter.hasNext()) {
       MaskInfo info = iter.next();
-- 
2.43.0


From 54ac1d4368885f90a887dcb5862d4ba65527644d Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 070/118] fix: BitSet.intersects with a set of another size

---
 classpath/java/util/BitSet.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/BitSet.java b/classpath/java/util/BitSet.java
index f535773..c963c3c 100644
--- a/classpath/java/util/BitSet.java
+++ b/classpath/java/util/BitSet.java
@@ -175,8 +175,8 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   public boolean intersects(BitSet otherBits) {
-    int max = Math.max(bits.length, otherBits.bits.length);
-    for (int i = 0; i < max; i++) {
+    int min = Math.min(bits.length, otherBits.bits.length);
+    for (int i = 0; i < min; i++) {
       if ((bits[i] & otherBits.bits[i]) != 0) {
         return true;
       }
-- 
2.43.0


From 0d1fded96a660046a136ede24c45ba9dc6724dfb Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 071/118] fix: BitSet.length is one more than the highest bit
 set

---
 classpath/java/util/BitSet.java | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/BitSet.java b/classpath/java/util/BitSet.java
index c963c3c..400b649 100644
--- a/classpath/java/util/BitSet.java
+++ b/classpath/java/util/BitSet.java
@@ -185,7 +185,16 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   public int length() {
-    return bits.length << BITS_PER_LONG_SHIFT;
+    for (int i = bits.length - 1; i >= 0; i--) {
+      if (bits[i] != 0) {
+        int length = (i + 1) << BITS_PER_LONG_SHIFT;
+        while ((bits[i] & bitPosition(length - 1)) == 0) {
+          --length;
+        }
+        return length;
+      }
+    }
+    return 0;
   }
 
   public int nextSetBit(int fromIndex) {
-- 
2.43.0


From d4063eeb12cc53ae5f1e95907db37d6a3f3282bc Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 072/118] fix: BitSet.nextSetBit and nextClearBit across words

---
 classpath/java/util/BitSet.java | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/classpath/java/util/BitSet.java b/classpath/java/util/BitSet.java
index 400b649..80bdcc0 100644
--- a/classpath/java/util/BitSet.java
+++ b/classpath/java/util/BitSet.java
@@ -202,30 +202,25 @@ public class BitSet implements Serializable, Cloneable {
   }
 
   private int nextBit(int fromIndex, boolean bitClear) {
-    int pos = longPosition(fromIndex);
-    if (pos >= bits.length) {
-      return -1;
+    if (fromIndex < 0) {
+      throw new IndexOutOfBoundsException();
     }
     int current = fromIndex;
-    do {
-      long currValue = bits[pos];
+    for (int pos = longPosition(fromIndex); pos < bits.length; pos++) {
+      long currValue = bitClear ? ~bits[pos] : bits[pos];
       if (currValue == 0) {
-        pos++;
-        current = pos << BITS_PER_LONG_SHIFT;
+        current = (pos + 1) << BITS_PER_LONG_SHIFT;
       } else {
         do {
-          long bitPos = bitPosition(current);
-          if (((currValue & bitPos) != 0) ^ bitClear) {
+          if ((currValue & bitPosition(current)) != 0) {
             return current;
-          } else {
-            current++;
           }
+          current++;
         } while (current % BITS_PER_LONG != 0);
       }
-      pos++;
-    } while (pos < bits.length);
+    }
 
-    return -1;
+    return bitClear ? current : -1;
   }
 
   public int nextClearBit(int fromIndex) {
-- 
2.43.0


From 9b56c555ac42d2c3f1f768beb39e200e065dc1d1 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 073/118] fix: Buffer.limit and position reject values out of
 range, limit lowers position

---
 classpath/java/nio/Buffer.java | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/classpath/java/nio/Buffer.java b/classpath/java/nio/Buffer.java
index f03e178..ba1530a 100644
--- a/classpath/java/nio/Buffer.java
+++ b/classpath/java/nio/Buffer.java
@@ -33,11 +33,22 @@ public abstract class Buffer {
   }
 
   public final Buffer limit(int newLimit) {
+    if (newLimit < 0 || newLimit > capacity) {
+      throw new IllegalArgumentException();
+    }
+
     limit = newLimit;
+    if (position > newLimit) {
+      position = newLimit;
+    }
     return this;
   }
 
   public final Buffer position(int newPosition) {
+    if (newPosition < 0 || newPosition > limit) {
+      throw new IllegalArgumentException();
+    }
+
     position = newPosition;
     return this;
   }
-- 
2.43.0


From d507e91954701f23d8eedb44de0861dc0b6c54c0 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 074/118] fix: a slice of a writable buffer is writable,
 CharBuffer.isReadOnly

---
 classpath/java/nio/ArrayByteBuffer.java      | 2 +-
 classpath/java/nio/ArrayCharBuffer.java      | 2 +-
 classpath/java/nio/CharBuffer.java           | 6 ++----
 classpath/java/nio/DirectByteBuffer.java     | 2 +-
 classpath/java/nio/FixedArrayByteBuffer.java | 3 ++-
 5 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/classpath/java/nio/ArrayByteBuffer.java b/classpath/java/nio/ArrayByteBuffer.java
index d0e41a2..8609725 100644
--- a/classpath/java/nio/ArrayByteBuffer.java
+++ b/classpath/java/nio/ArrayByteBuffer.java
@@ -41,7 +41,7 @@ class ArrayByteBuffer extends ByteBuffer {
 
   public ByteBuffer slice() {
     return new ArrayByteBuffer
-      (array, arrayOffset + position, remaining(), true);
+      (array, arrayOffset + position, remaining(), isReadOnly());
   }
 
   public int arrayOffset() {
diff --git a/classpath/java/nio/ArrayCharBuffer.java b/classpath/java/nio/ArrayCharBuffer.java
index a4e93aa..83dca73 100644
--- a/classpath/java/nio/ArrayCharBuffer.java
+++ b/classpath/java/nio/ArrayCharBuffer.java
@@ -41,7 +41,7 @@ class ArrayCharBuffer extends CharBuffer {
 
   public CharBuffer slice() {
     return new ArrayCharBuffer
-      (array, arrayOffset + position, remaining(), true);
+      (array, arrayOffset + position, remaining(), isReadOnly());
   }
 
   public int arrayOffset() {
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 1d92de5..797180e 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -14,10 +14,8 @@ public abstract class CharBuffer
   extends Buffer
   implements Comparable<CharBuffer>
 {
-  private final boolean readOnly;
-
   protected CharBuffer(boolean readOnly) {
-    this.readOnly = readOnly;
+    this.readonly = readOnly;
   }
 
   public static CharBuffer allocate(int capacity) {
@@ -133,7 +131,7 @@ public abstract class CharBuffer
   }
 
   protected void checkPut(int position, int amount, boolean absolute) {
-    if (readOnly) {
+    if (isReadOnly()) {
       throw new ReadOnlyBufferException();
     }
 
diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index ede7074..3b940da 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -39,7 +39,7 @@ class DirectByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer slice() {
-    return new DirectByteBuffer(address + position, remaining(), true);
+    return new DirectByteBuffer(address + position, remaining(), isReadOnly());
   }
 
   protected void doPut(int position, byte val) {
diff --git a/classpath/java/nio/FixedArrayByteBuffer.java b/classpath/java/nio/FixedArrayByteBuffer.java
index d433e32..697876b 100644
--- a/classpath/java/nio/FixedArrayByteBuffer.java
+++ b/classpath/java/nio/FixedArrayByteBuffer.java
@@ -44,7 +44,8 @@ class FixedArrayByteBuffer extends DirectByteBuffer {
 
   public ByteBuffer slice() {
     return new FixedArrayByteBuffer
-      (address + position, array, arrayOffset + position, remaining(), true);
+      (address + position, array, arrayOffset + position, remaining(),
+       isReadOnly());
   }
   
   @Override
-- 
2.43.0


From 8cde4ba87326223c37ae0df843b81d3124572b23 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 075/118] fix: a bulk get advances the position of a direct
 buffer

---
 classpath/java/nio/DirectByteBuffer.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index 3b940da..0074a16 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -89,6 +89,8 @@ class DirectByteBuffer extends ByteBuffer {
     unsafe.copyMemory
       (null, address + position, dst, baseOffset + offset, length);
 
+    position += length;
+
     return this;
   }
 
-- 
2.43.0


From ba8014867c5c5ef158c61aa47d80192fcb2022eb Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 076/118] fix: buffers check indexes and array ranges without
 overflow before access

---
 classpath/java/nio/ArrayByteBuffer.java  |  3 +++
 classpath/java/nio/ArrayCharBuffer.java  |  3 +++
 classpath/java/nio/ByteBuffer.java       | 10 ++++++++--
 classpath/java/nio/CharBuffer.java       | 13 ++++++++++---
 classpath/java/nio/DirectByteBuffer.java | 11 +++--------
 5 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/classpath/java/nio/ArrayByteBuffer.java b/classpath/java/nio/ArrayByteBuffer.java
index 8609725..2c2f180 100644
--- a/classpath/java/nio/ArrayByteBuffer.java
+++ b/classpath/java/nio/ArrayByteBuffer.java
@@ -61,6 +61,8 @@ class ArrayByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer put(byte[] src, int offset, int length) {
+    checkPut(position, 0, false);
+    checkRange(offset, length, src.length);
     checkPut(position, length, false);
 
     System.arraycopy(src, offset, array, arrayOffset + position, length);
@@ -70,6 +72,7 @@ class ArrayByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer get(byte[] dst, int offset, int length) {
+    checkRange(offset, length, dst.length);
     checkGet(position, length, false);
 
     System.arraycopy(array, arrayOffset + position, dst, offset, length);
diff --git a/classpath/java/nio/ArrayCharBuffer.java b/classpath/java/nio/ArrayCharBuffer.java
index 83dca73..b265822 100644
--- a/classpath/java/nio/ArrayCharBuffer.java
+++ b/classpath/java/nio/ArrayCharBuffer.java
@@ -61,6 +61,8 @@ class ArrayCharBuffer extends CharBuffer {
   }
 
   public CharBuffer put(char[] src, int offset, int length) {
+    checkPut(position, 0, false);
+    checkRange(offset, length, src.length);
     checkPut(position, length, false);
 
     System.arraycopy(src, offset, array, arrayOffset + position, length);
@@ -70,6 +72,7 @@ class ArrayCharBuffer extends CharBuffer {
   }
 
   public CharBuffer get(char[] dst, int offset, int length) {
+    checkRange(offset, length, dst.length);
     checkGet(position, length, false);
 
     System.arraycopy(array, arrayOffset + position, dst, offset, length);
diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index fddb064..083f59f 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -311,15 +311,21 @@ public abstract class ByteBuffer
       throw new ReadOnlyBufferException();
     }
 
-    if (position < 0 || position+amount > limit) {
+    if (position < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferOverflowException();
     }
   }
 
+  protected static void checkRange(int offset, int length, int size) {
+    if (offset < 0 || length < 0 || offset > size - length) {
+      throw new IndexOutOfBoundsException();
+    }
+  }
+
   protected void checkGet(int position, int amount, boolean absolute) {
-    if (amount > limit-position) {
+    if (position < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferUnderflowException();
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 797180e..1e0a9e7 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -107,7 +107,8 @@ public abstract class CharBuffer
   }
 
   public CharBuffer put(char val) {
-    put(position, val);
+    checkPut(position, 1, false);
+    doPut(position, val);
     ++ position;
     return this;
   }
@@ -135,15 +136,21 @@ public abstract class CharBuffer
       throw new ReadOnlyBufferException();
     }
 
-    if (position < 0 || position+amount > limit) {
+    if (position < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferOverflowException();
     }
   }
 
+  protected static void checkRange(int offset, int length, int size) {
+    if (offset < 0 || length < 0 || offset > size - length) {
+      throw new IndexOutOfBoundsException();
+    }
+  }
+
   protected void checkGet(int position, int amount, boolean absolute) {
-    if (amount > limit-position) {
+    if (position < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferUnderflowException();
diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index 0074a16..fe76a7f 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -65,10 +65,8 @@ class DirectByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer put(byte[] src, int offset, int length) {
-    if (offset < 0 || offset + length > src.length) {
-      throw new ArrayIndexOutOfBoundsException();
-    }
-
+    checkPut(position, 0, false);
+    checkRange(offset, length, src.length);
     checkPut(position, length, false);
 
     unsafe.copyMemory
@@ -80,10 +78,7 @@ class DirectByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer get(byte[] dst, int offset, int length) {
-    if (offset < 0 || offset + length > dst.length) {
-      throw new ArrayIndexOutOfBoundsException();
-    }
-
+    checkRange(offset, length, dst.length);
     checkGet(position, length, false);
 
     unsafe.copyMemory
-- 
2.43.0


From 04a65827d98394db5058f77f3be446852ae21f71 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 077/118] fix: a buffer wrapping part of an array covers it
 all, from position to limit

---
 classpath/java/nio/ByteBuffer.java | 6 +++++-
 classpath/java/nio/CharBuffer.java | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index 083f59f..330a7db 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -32,7 +32,11 @@ public abstract class ByteBuffer
   }
 
   public static ByteBuffer wrap(byte[] array, int offset, int length) {
-    return new ArrayByteBuffer(array, offset, length, false);
+    checkRange(offset, length, array.length);
+    ByteBuffer b = new ArrayByteBuffer(array, 0, array.length, false);
+    b.position(offset);
+    b.limit(offset + length);
+    return b;
   }
 
   public abstract ByteBuffer asReadOnlyBuffer();
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 1e0a9e7..46400d2 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -27,7 +27,11 @@ public abstract class CharBuffer
   }
 
   public static CharBuffer wrap(char[] array, int offset, int length) {
-    return new ArrayCharBuffer(array, offset, length, false);
+    checkRange(offset, length, array.length);
+    CharBuffer b = new ArrayCharBuffer(array, 0, array.length, false);
+    b.position(offset);
+    b.limit(offset + length);
+    return b;
   }
 
   public abstract CharBuffer asReadOnlyBuffer();
-- 
2.43.0


From 932b538b4f7a785ae36a46f901c9fa0e4c5a5f0b Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 078/118] fix: compacting a read-only buffer throws,
 overlapping copyMemory

---
 classpath/java/nio/ByteBuffer.java | 2 ++
 classpath/java/nio/CharBuffer.java | 2 ++
 src/builtin.cpp                    | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index 330a7db..19aeccd 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -58,6 +58,8 @@ public abstract class ByteBuffer
   }
 
   public ByteBuffer compact() {
+    checkPut(position, 0, false);
+
     int remaining = remaining();
 
     if (position != 0) {
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 46400d2..e273083 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -51,6 +51,8 @@ public abstract class CharBuffer
   }
 
   public CharBuffer compact() {
+    checkPut(position, 0, false);
+
     int remaining = remaining();
 
     if (position != 0) {
diff --git a/src/builtin.cpp b/src/builtin.cpp
index d122a40..46164c8 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -799,7 +799,7 @@ extern "C" AVIAN_EXPORT void JNICALL
   void* dst = dstBase ? &fieldAtOffset<uint8_t>(dstBase, dstOffset)
                       : reinterpret_cast<uint8_t*>(dstOffset);
 
-  memcpy(dst, src, count);
+  memmove(dst, src, count);
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
-- 
2.43.0


From ad02eb5a42f97b722127ea2efcbc3a72c6e06939 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 079/118] fix: equal buffers have equal hash codes

---
 classpath/java/nio/ByteBuffer.java | 8 ++++++++
 classpath/java/nio/CharBuffer.java | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index 19aeccd..a177026 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -105,6 +105,14 @@ public abstract class ByteBuffer
     return o instanceof ByteBuffer && compareTo((ByteBuffer) o) == 0;
   }
 
+  public int hashCode() {
+    int h = 1;
+    for (int i = limit - 1; i >= position; --i) {
+      h = 31 * h + get(i);
+    }
+    return h;
+  }
+
   public byte[] array() {
     throw new UnsupportedOperationException();
   }
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index e273083..f92e451 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -98,6 +98,14 @@ public abstract class CharBuffer
     return o instanceof CharBuffer && compareTo((CharBuffer) o) == 0;
   }
 
+  public int hashCode() {
+    int h = 1;
+    for (int i = limit - 1; i >= position; --i) {
+      h = 31 * h + get(i);
+    }
+    return h;
+  }
+
   public char[] array() {
     throw new UnsupportedOperationException();
   }
-- 
2.43.0


From ef4b460a2d3c93c3d94ca9a302fe984f92936ce2 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 080/118] fix: save the locals before an array length in a try
 block

The length of a null array throws, and the handler saw stale locals.
---
 src/compile.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 691e2a3..181bdf7 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -4404,9 +4404,16 @@ loop:
       goto next;
 
     case arraylength: {
+      ir::Value* array = frame->pop(ir::Type::object());
+
+      if (inTryBlock(t, code, ip - 1)) {
+        c->saveLocals();
+        frame->trace(0, 0);
+      }
+
       frame->push(ir::Type::i4(),
                   c->load(ir::ExtendMode::Signed,
-                          c->memory(frame->pop(ir::Type::object()),
+                          c->memory(array,
                                     ir::Type::iptr(),
                                     TargetArrayLength),
                           ir::Type::i4()));
-- 
2.43.0


From 93f6ec97197150ecfe7b85cea56413be171789c2 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 081/118] fix: a class whose initializer throws is erroneous,
 and its waiters are woken

An Error left the class initialized, and after any other exception the threads
waiting for the class were not woken, or used it as if it were initialized.
---
 src/machine.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index d4526a3..66cdcbb 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5330,10 +5330,12 @@ bool preInitClass(Thread* t, GcClass* c)
           ENTER(t, Thread::IdleState);
           t->m->classLock->wait(t->systemThread, 0);
         }
-      } else if (c->vmFlags() & InitErrorFlag) {
+      }
+
+      if (c->vmFlags() & InitErrorFlag) {
         throwNew(
             t, GcNoClassDefFoundError::Type, "%s", c->name()->body().begin());
-      } else {
+      } else if (c->vmFlags() & NeedInitFlag) {
         c->vmFlags() |= InitFlag;
         return true;
       }
@@ -5347,25 +5349,32 @@ void postInitClass(Thread* t, GcClass* c)
   PROTECT(t, c);
   ACQUIRE(t, t->m->classLock);
 
-  if (t->exception
-      and instanceOf(t, type(t, GcException::Type), t->exception)) {
+  if (t->exception) {
     c->vmFlags() |= NeedInitFlag | InitErrorFlag;
     c->vmFlags() &= ~InitFlag;
+    t->m->classLock->notifyAll(t->systemThread);
 
     GcThrowable* exception = t->exception;
-    t->exception = 0;
 
-    GcExceptionInInitializerError* initExecption
-        = makeThrowable(t, GcExceptionInInitializerError::Type, 0, 0, exception)
-              ->as<GcExceptionInInitializerError>(t);
+    // an Error is propagated as is, anything else is wrapped
+    if (not instanceOf(t, type(t, GcError::Type), exception)) {
+      PROTECT(t, exception);
 
-    initExecption->setException(t, exception->cause());
+      t->exception = 0;
 
-    throw_(t, initExecption->as<GcThrowable>(t));
+      GcExceptionInInitializerError* initExecption
+          = makeThrowable(
+                t, GcExceptionInInitializerError::Type, 0, 0, exception)
+                ->as<GcExceptionInInitializerError>(t);
+
+      initExecption->setException(t, exception);
+
+      throw_(t, initExecption->as<GcThrowable>(t));
+    }
   } else {
     c->vmFlags() &= ~(NeedInitFlag | InitFlag);
+    t->m->classLock->notifyAll(t->systemThread);
   }
-  t->m->classLock->notifyAll(t->systemThread);
 }
 
 void initClass(Thread* t, GcClass* c)
-- 
2.43.0


From a7c2f99b746f047e05f8f4be3f3307337402a270 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 082/118] fix: a class is not initialized before its superclass
 when that uses it

---
 src/machine.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 66cdcbb..dcb20d8 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5381,19 +5381,21 @@ void initClass(Thread* t, GcClass* c)
 {
   PROTECT(t, c);
 
-  GcClass* super = c->super();
-  if (super) {
-    initClass(t, super);
-  }
-
   if (preInitClass(t, c)) {
     OBJECT_RESOURCE(t, c, postInitClass(t, cast<GcClass>(t, c)));
 
+    // the class counts as being initialized while its superclass is, so
+    // that a use of it from there does not run its initializer first
+    Thread::ClassInitStack stack(t, c);
+
+    GcClass* super = c->super();
+    if (super and (c->flags() & ACC_INTERFACE) == 0) {
+      initClass(t, super);
+    }
+
     GcMethod* initializer = classInitializer(t, c);
 
     if (initializer) {
-      Thread::ClassInitStack stack(t, c);
-
       t->m->processor->invoke(t, initializer, 0);
     }
   }
-- 
2.43.0


From 43e033b29829cd4a5532cbfe34a7a4d299da740d Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:17:20 +0000
Subject: [PATCH 083/118] fix: compiled code waits for a class which another
 thread is initializing

Code compiled by the initializing thread was left without any check.
---
 src/avian/machine.h |  2 --
 src/compile.cpp     | 32 +++++++++++++++++++++++++++-----
 src/machine.cpp     | 20 --------------------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 1cf3969..910b9a0 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -2475,8 +2475,6 @@ inline GcField* resolveField(Thread* t,
       t, resolveClass(t, loader, className), fieldName, fieldSpec);
 }
 
-bool classNeedsInit(Thread* t, GcClass* c);
-
 bool preInitClass(Thread* t, GcClass* c);
 
 void postInitClass(Thread* t, GcClass* c);
diff --git a/src/compile.cpp b/src/compile.cpp
index 181bdf7..2176762 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2525,6 +2525,10 @@ int64_t findStaticMethodFromReference(MyThread* t, GcPair* pair)
 
   checkMethod(t, target, true);
 
+  PROTECT(t, target);
+
+  initClass(t, target->class_());
+
   return prepareMethodForCall(t, target);
 }
 
@@ -3307,6 +3311,16 @@ void compileDirectInvoke(MyThread* t,
   }
 }
 
+// Must code which uses this class see to its initialization?  Even if the
+// thread compiling the code is initializing the class right now, another one
+// may run the code later, and has to wait for the initialization to complete.
+bool classNeedsInit(Context* context, GcClass* c)
+{
+  return (c->vmFlags() & NeedInitFlag)
+         and not(context->method->class_() == c
+                 and (context->method->vmFlags() & ClassInitFlag));
+}
+
 bool compileDirectInvoke(MyThread* t,
                          Frame* frame,
                          GcMethod* target,
@@ -3314,14 +3328,15 @@ bool compileDirectInvoke(MyThread* t,
 {
   // don't bother calling an empty method unless calling it might
   // cause the class to be initialized, which may have side effects
-  if (emptyMethod(t, target) and (not classNeedsInit(t, target->class_()))) {
+  if (emptyMethod(t, target)
+      and (not classNeedsInit(frame->context, target->class_()))) {
     frame->popFootprint(target->parameterFootprint());
     tailCall = false;
   } else {
     BootContext* bc = frame->context->bootContext;
     if (bc) {
       if ((target->class_() == frame->context->method->class_()
-           or (not classNeedsInit(t, target->class_())))
+           or (not classNeedsInit(frame->context, target->class_())))
           and (not(avian::codegen::TailCalls and tailCall
                    and (target->flags() & ACC_NATIVE)))) {
         avian::codegen::Promise* p = new (bc->zone)
@@ -3336,7 +3351,7 @@ bool compileDirectInvoke(MyThread* t,
         compileDirectInvoke(t, frame, target, tailCall, true, 0);
       }
     } else if (unresolved(t, methodAddress(t, target))
-               or classNeedsInit(t, target->class_())) {
+               or classNeedsInit(frame->context, target->class_())) {
       compileDirectInvoke(t, frame, target, tailCall, true, 0);
     } else {
       compileDirectInvoke(t, frame, target, tailCall, false, 0);
@@ -4705,7 +4720,7 @@ loop:
 
           PROTECT(t, field);
 
-          if (classNeedsInit(t, field->class_())) {
+          if (classNeedsInit(context, field->class_())) {
             c->nativeCall(
                 c->constant(getThunk(t, tryInitClassThunk), ir::Type::iptr()),
                 0,
@@ -6106,7 +6121,7 @@ loop:
         if (instruction == putstatic) {
           checkField(t, field, true);
 
-          if (classNeedsInit(t, field->class_())) {
+          if (classNeedsInit(context, field->class_())) {
             PROTECT(t, field);
 
             c->nativeCall(
@@ -9718,6 +9733,13 @@ void* compileMethod2(MyThread* t, void* ip)
     address = methodAddress(t, target);
   }
 
+  if ((target->flags() & ACC_STATIC)
+      and (target->class_()->vmFlags() & NeedInitFlag)) {
+    // this thread is initializing the class, but any other one which
+    // makes this call must still wait until that is done
+    updateCaller = false;
+  }
+
   if (updateCaller) {
     avian::codegen::lir::UnaryOperation op;
     if (node->flags() & TraceElement::LongCall) {
diff --git a/src/machine.cpp b/src/machine.cpp
index dcb20d8..9579aa5 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5286,26 +5286,6 @@ GcField* resolveField(Thread* t,
   }
 }
 
-bool classNeedsInit(Thread* t, GcClass* c)
-{
-  if (c->vmFlags() & NeedInitFlag) {
-    if (c->vmFlags() & InitFlag) {
-      // the class is currently being initialized.  If this the thread
-      // which is initializing it, we should not try to initialize it
-      // recursively.  Otherwise, we must wait for the responsible
-      // thread to finish.
-      for (Thread::ClassInitStack* s = t->classInitStack; s; s = s->next) {
-        if (s->class_ == c) {
-          return false;
-        }
-      }
-    }
-    return true;
-  } else {
-    return false;
-  }
-}
-
 bool preInitClass(Thread* t, GcClass* c)
 {
   int flags = c->vmFlags();
-- 
2.43.0


From 2f08b5ed1b22934bb1671914cfbfbdc65afd0d47 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 084/118] fix: findLoadedClass finds the classes of every class
 loader

---
 classpath/avian/Classes.java         |  3 +++
 classpath/java/lang/ClassLoader.java |  3 ++-
 src/builtin.cpp                      | 12 ++++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index b827ab2..610d382 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -35,6 +35,9 @@ public class Classes {
   public static native VMClass defineVMClass
     (ClassLoader loader, byte[] b, int offset, int length);
 
+  public static native VMClass findLoadedVMClass
+    (ClassLoader loader, String name);
+
   public static native VMClass primitiveClass(char name);
 
   public static native void initialize(VMClass vmClass);
diff --git a/classpath/java/lang/ClassLoader.java b/classpath/java/lang/ClassLoader.java
index 8cc4329..4ace6aa 100644
--- a/classpath/java/lang/ClassLoader.java
+++ b/classpath/java/lang/ClassLoader.java
@@ -126,7 +126,8 @@ public abstract class ClassLoader {
   }
 
   protected Class reallyFindLoadedClass(String name) {
-    return null;
+    avian.VMClass c = avian.Classes.findLoadedVMClass(this, name);
+    return c == null ? null : avian.SystemClassLoader.getClass(c);
   }
 
   protected final Class findLoadedClass(String name) {
diff --git a/src/builtin.cpp b/src/builtin.cpp
index 46164c8..981b664 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -171,6 +171,18 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
   return reinterpret_cast<int64_t>(defineClass(t, loader, buffer, length));
 }
 
+extern "C" AVIAN_EXPORT int64_t JNICALL
+    Avian_avian_Classes_findLoadedVMClass(Thread* t,
+                                          object,
+                                          uintptr_t* arguments)
+{
+  GcClassLoader* loader
+      = cast<GcClassLoader>(t, reinterpret_cast<object>(arguments[0]));
+  GcString* name = cast<GcString>(t, reinterpret_cast<object>(arguments[1]));
+
+  return search(t, loader, name, findLoadedClass, true);
+}
+
 extern "C" AVIAN_EXPORT int64_t JNICALL
     Avian_avian_Classes_makeString(Thread* t, object, uintptr_t* arguments)
 {
-- 
2.43.0


From 15a0e943ec60293780bea73f2b5e0bb66604c55f Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 085/118] fix: a class is linked by its own loader, and not
 while holding the class lock

---
 classpath/avian/Classes.java         | 89 ++++++++++++++++------------
 classpath/java/lang/Class.java       |  2 +-
 classpath/java/lang/ClassLoader.java |  2 +-
 3 files changed, 52 insertions(+), 41 deletions(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index 610d382..0ffc4df 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -177,11 +177,22 @@ public class Classes {
   private static void parseAnnotationTable(ClassLoader loader,
                                            Addendum addendum)
   {
-    if (addendum != null && addendum.annotationTable instanceof byte[]) {
+    if (addendum == null) return;
+
+    Object table = addendum.annotationTable;
+    if (table instanceof byte[]) {
       try {
-        addendum.annotationTable = parseAnnotationTable
-          (loader, addendum.pool, new ByteArrayInputStream
-           ((byte[]) addendum.annotationTable));
+        Object[] parsed = parseAnnotationTable
+          (loader, addendum.pool, new ByteArrayInputStream((byte[]) table));
+
+        acquireClassLock();
+        try {
+          if (addendum.annotationTable == table) {
+            addendum.annotationTable = parsed;
+          }
+        } finally {
+          releaseClassLock();
+        }
       } catch (IOException e) {
         AssertionError error = new AssertionError();
         error.initCause(e);
@@ -238,57 +249,57 @@ public class Classes {
     return table == null ? 0 : table.length;
   }
 
-  public static void link(VMClass c, ClassLoader loader) {
-    acquireClassLock();
-    try {
-      if ((c.vmFlags & LinkFlag) == 0) {
-        if (c.super_ != null) {
-          link(c.super_, loader);
-        }
+  public static void link(VMClass c) {
+    // The class loaders called below take locks of their own, so we
+    // must not hold the class lock until all classes are resolved.
+    if ((c.vmFlags & LinkFlag) == 0) {
+      ClassLoader loader = c.loader;
 
-        parseAnnotationTable(loader, c.addendum);
+      if (c.super_ != null) {
+        link(c.super_);
+      }
 
-        if (c.interfaceTable != null) {
-          int stride = ((c.flags & Modifier.INTERFACE) != 0 ? 1 : 2);
-          for (int i = 0; i < c.interfaceTable.length; i += stride) {
-            link((VMClass) c.interfaceTable[i], loader);
-          }
-        }
+      parseAnnotationTable(loader, c.addendum);
 
-        VMMethod[] methodTable = c.methodTable;
-        if (methodTable != null) {
-          for (int i = 0; i < methodTable.length; ++i) {
-            VMMethod m = methodTable[i];
+      if (c.interfaceTable != null) {
+        int stride = ((c.flags & Modifier.INTERFACE) != 0 ? 1 : 2);
+        for (int i = 0; i < c.interfaceTable.length; i += stride) {
+          link((VMClass) c.interfaceTable[i]);
+        }
+      }
 
-            for (int j = 1; j < m.spec.length;) {
-              j = resolveSpec(loader, m.spec, j);
-            }
+      VMMethod[] methodTable = c.methodTable;
+      if (methodTable != null) {
+        for (int i = 0; i < methodTable.length; ++i) {
+          VMMethod m = methodTable[i];
 
-            parseAnnotationTable(loader, m.addendum);
+          for (int j = 1; j < m.spec.length;) {
+            j = resolveSpec(loader, m.spec, j);
           }
+
+          parseAnnotationTable(loader, m.addendum);
         }
+      }
 
-        if (c.fieldTable != null) {
-          for (int i = 0; i < c.fieldTable.length; ++i) {
-            VMField f = c.fieldTable[i];
+      if (c.fieldTable != null) {
+        for (int i = 0; i < c.fieldTable.length; ++i) {
+          VMField f = c.fieldTable[i];
 
-            resolveSpec(loader, f.spec, 0);
+          resolveSpec(loader, f.spec, 0);
 
-            parseAnnotationTable(loader, f.addendum);
-          }
+          parseAnnotationTable(loader, f.addendum);
         }
+      }
 
+      acquireClassLock();
+      try {
         c.vmFlags |= LinkFlag;
+      } finally {
+        releaseClassLock();
       }
-    } finally {
-      releaseClassLock();
     }
   }
 
-  public static void link(VMClass c) {
-    link(c, c.loader);
-  }
-
   public static Class forName(String name, boolean initialize,
                               ClassLoader loader)
     throws ClassNotFoundException
@@ -298,7 +309,7 @@ public class Classes {
     }
     Class c = loader.loadClass(name.replace('/', '.'));
     VMClass vmc = SystemClassLoader.vmClass(c);
-    link(vmc, loader);
+    link(vmc);
     if (initialize) {
       initialize(vmc);
     }
diff --git a/classpath/java/lang/Class.java b/classpath/java/lang/Class.java
index 6b3729b..91b122d 100644
--- a/classpath/java/lang/Class.java
+++ b/classpath/java/lang/Class.java
@@ -650,7 +650,7 @@ public final class Class <T>
   public <T extends Annotation> T getAnnotation(Class<T> class_) {
     for (VMClass c = vmClass; c != null; c = c.super_) {
       if (c.addendum != null && c.addendum.annotationTable != null) {
-        Classes.link(c, c.loader);
+        Classes.link(c);
 
         Object[] table = (Object[]) c.addendum.annotationTable;
         for (int i = 0; i < table.length; ++i) {
diff --git a/classpath/java/lang/ClassLoader.java b/classpath/java/lang/ClassLoader.java
index 4ace6aa..f578274 100644
--- a/classpath/java/lang/ClassLoader.java
+++ b/classpath/java/lang/ClassLoader.java
@@ -162,7 +162,7 @@ public abstract class ClassLoader {
   }
 
   protected void resolveClass(Class c) {
-    avian.Classes.link(c.vmClass, this);
+    avian.Classes.link(c.vmClass);
   }
 
   public final ClassLoader getParent() {
-- 
2.43.0


From 40123a171e4cc3d7b9c3477b8a24b5a12c176da4 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 086/118] fix: one class for each name and loader

---
 classpath/java/lang/ClassLoader.java |  2 +-
 src/machine.cpp                      | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/classpath/java/lang/ClassLoader.java b/classpath/java/lang/ClassLoader.java
index f578274..61a1f62 100644
--- a/classpath/java/lang/ClassLoader.java
+++ b/classpath/java/lang/ClassLoader.java
@@ -138,7 +138,7 @@ public abstract class ClassLoader {
     return loadClass(name, false);
   }
 
-  protected Class loadClass(String name, boolean resolve)
+  protected synchronized Class loadClass(String name, boolean resolve)
     throws ClassNotFoundException
   {
     Class c = findLoadedClass(name);
diff --git a/src/machine.cpp b/src/machine.cpp
index 9579aa5..d609b45 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -3088,7 +3088,8 @@ GcClass* makeArrayClass(Thread* t,
   return c;
 }
 
-void saveLoadedClass(Thread* t, GcClassLoader* loader, GcClass* c)
+// returns false if the loader already has a class of that name
+bool saveLoadedClass(Thread* t, GcClassLoader* loader, GcClass* c)
 {
   PROTECT(t, loader);
   PROTECT(t, c);
@@ -3100,8 +3101,12 @@ void saveLoadedClass(Thread* t, GcClassLoader* loader, GcClass* c)
     loader->setMap(t, map);
   }
 
-  hashMapInsert(
-      t, cast<GcHashMap>(t, loader->map()), c->name(), c, byteArrayHash);
+  return hashMapInsertMaybe(t,
+                            cast<GcHashMap>(t, loader->map()),
+                            c->name(),
+                            c,
+                            byteArrayHash,
+                            byteArrayEqual);
 }
 
 GcClass* makeArrayClass(Thread* t,
@@ -6069,7 +6074,12 @@ GcClass* defineClass(Thread* t,
 
   PROTECT(t, c);
 
-  saveLoadedClass(t, loader, c);
+  if (not saveLoadedClass(t, loader, c)) {
+    throwNew(t,
+             GcLinkageError::Type,
+             "duplicate class definition: %s",
+             c->name()->body().begin());
+  }
 
   return c;
 }
-- 
2.43.0


From 559de90d3154a3d42851970312aec61a06a76176 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 087/118] fix: check the range given to defineClass

---
 classpath/java/lang/ClassLoader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/ClassLoader.java b/classpath/java/lang/ClassLoader.java
index 61a1f62..b3b181c 100644
--- a/classpath/java/lang/ClassLoader.java
+++ b/classpath/java/lang/ClassLoader.java
@@ -107,7 +107,7 @@ public abstract class ClassLoader {
       throw new NullPointerException();
     }
 
-    if (offset < 0 || offset > length || offset + length > b.length) {
+    if (offset < 0 || length < 0 || offset > b.length - length) {
       throw new IndexOutOfBoundsException();
     }
 
-- 
2.43.0


From a810dee34c138181ba37cf90fe69f047282ffec2 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 088/118] fix: only a ClassNotFoundException of a loader
 becomes a NoClassDefFoundError

---
 src/machine.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index d609b45..eadc2aa 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5213,9 +5213,12 @@ GcClass* resolveClass(Thread* t,
       } else if (t->exception) {
         if (throw_) {
           GcThrowable* e
-              = type(t, throwType) == objectClass(t, t->exception)
-                    ? t->exception
-                    : makeThrowable(t, throwType, specString, 0, t->exception);
+              = type(t, throwType) != objectClass(t, t->exception)
+                        and instanceOf(t,
+                                       type(t, GcClassNotFoundException::Type),
+                                       t->exception)
+                    ? makeThrowable(t, throwType, specString, 0, t->exception)
+                    : t->exception;
           t->exception = 0;
           vm::throw_(t, e);
         } else {
-- 
2.43.0


From 0e3bc16d9f2e9a3dff8bcbeff1a58a0426cb3516 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 089/118] fix: ClassFormatError for data which is not a class
 file

---
 classpath/java/lang/ClassFormatError.java | 21 +++++++++++++++++++++
 src/machine.cpp                           |  6 ++++--
 src/types.def                             |  2 ++
 3 files changed, 27 insertions(+), 2 deletions(-)
 create mode 100644 classpath/java/lang/ClassFormatError.java

diff --git a/classpath/java/lang/ClassFormatError.java b/classpath/java/lang/ClassFormatError.java
new file mode 100644
index 0000000..9514584
--- /dev/null
+++ b/classpath/java/lang/ClassFormatError.java
@@ -0,0 +1,21 @@
+/* Copyright (c) 2008-2015, Avian Contributors
+
+   Permission to use, copy, modify, and/or distribute this software
+   for any purpose with or without fee is hereby granted, provided
+   that the above copyright notice and this permission notice appear
+   in all copies.
+
+   There is NO WARRANTY for this software.  See license.txt for
+   details. */
+
+package java.lang;
+
+public class ClassFormatError extends LinkageError {
+  public ClassFormatError(String message) {
+    super(message);
+  }
+
+  public ClassFormatError() {
+    super();
+  }
+}
diff --git a/src/machine.cpp b/src/machine.cpp
index eadc2aa..f398841 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4884,7 +4884,7 @@ GcClass* parseClass(Thread* t,
 
     virtual void NO_RETURN handleError()
     {
-      abort(t);
+      throwNew(t, GcClassFormatError::Type, "truncated class file");
     }
 
    private:
@@ -4894,7 +4894,9 @@ GcClass* parseClass(Thread* t,
   Stream s(&client, data, size);
 
   uint32_t magic = s.read4();
-  expect(t, magic == 0xCAFEBABE);
+  if (UNLIKELY(magic != 0xCAFEBABE)) {
+    throwNew(t, GcClassFormatError::Type, "bad magic number");
+  }
   unsigned minorVer = s.read2();  // minor version
   unsigned majorVer = s.read2();  // major version
   if (DebugClassReader) {
diff --git a/src/types.def b/src/types.def
index b17dd1d..4865050 100644
--- a/src/types.def
+++ b/src/types.def
@@ -256,6 +256,8 @@
 
 (type noClassDefFoundError java/lang/NoClassDefFoundError)
 
+(type classFormatError java/lang/ClassFormatError)
+
 (type unsatisfiedLinkError java/lang/UnsatisfiedLinkError)
 
 (type exceptionInInitializerError java/lang/ExceptionInInitializerError)
-- 
2.43.0


From fafb111c2ecbb5ec7d214993f214979122adaffe Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 090/118] fix: readFloat and readDouble take the value from its
 bits

---
 classpath/java/io/DataInputStream.java  | 4 ++--
 classpath/java/io/RandomAccessFile.java | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/classpath/java/io/DataInputStream.java b/classpath/java/io/DataInputStream.java
index a80d93c..f1f9a6b 100644
--- a/classpath/java/io/DataInputStream.java
+++ b/classpath/java/io/DataInputStream.java
@@ -73,11 +73,11 @@ public class DataInputStream extends InputStream implements DataInput {
   }
 
   public float readFloat() throws IOException {
-    return Float.floatToIntBits(readInt());
+    return Float.intBitsToFloat(readInt());
   }
 
   public double readDouble() throws IOException {
-    return Double.doubleToLongBits(readLong());
+    return Double.longBitsToDouble(readLong());
   }
 
   public long readLong() throws IOException {
diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 4739b9e..11fad30 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -165,11 +165,11 @@ public class RandomAccessFile implements DataInput, Closeable {
   }
 
   public float readFloat() throws IOException {
-    return Float.floatToIntBits(readInt());
+    return Float.intBitsToFloat(readInt());
   }
 
   public double readDouble() throws IOException {
-    return Double.doubleToLongBits(readLong());
+    return Double.longBitsToDouble(readLong());
   }
 
   public long readLong() throws IOException {
-- 
2.43.0


From 82b3c632a900f1e82ec26fcf469e0d7157c51731 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 091/118] fix: RandomAccessFile.readShort and readInt do not
 sign-extend the lower bytes

---
 classpath/java/io/RandomAccessFile.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 11fad30..fa3ee34 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -155,13 +155,14 @@ public class RandomAccessFile implements DataInput, Closeable {
   public short readShort() throws IOException {
     final byte[] buffer = new byte[2];
     readFully(buffer);
-    return (short)((buffer[0] << 8) | buffer[1]);
+    return (short)((buffer[0] << 8) | (buffer[1] & 0xff));
   }
 
   public int readInt() throws IOException {
     byte[] buf = new byte[4];
     readFully(buf);
-    return ((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
+    return ((buf[0] << 24) | ((buf[1] & 0xff) << 16)
+            | ((buf[2] & 0xff) << 8) | (buf[3] & 0xff));
   }
 
   public float readFloat() throws IOException {
-- 
2.43.0


From 07e2a90fd32b4820841613aa49872fa09b781432 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 092/118] fix: RandomAccessFile reads and skips what is left
 before the end of the file

---
 classpath/java/io/RandomAccessFile.java | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index fa3ee34..cc06ca4 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -71,7 +71,10 @@ public class RandomAccessFile implements DataInput, Closeable {
   }
 
   public int skipBytes(int count) throws IOException {
-    if (position + count > length()) throw new IOException();
+    if (count <= 0) return 0;
+    long remaining = length() - position;
+    if (remaining <= 0) return 0;
+    if (count > remaining) count = (int) remaining;
     this.position = position + count;
     return count;
   }
@@ -81,13 +84,13 @@ public class RandomAccessFile implements DataInput, Closeable {
       throw new IllegalArgumentException();
     if (peer == 0)
       throw new IOException();
+    if (off < 0 || len < 0 || off > b.length - len)
+      throw new ArrayIndexOutOfBoundsException();
     if(len == 0)
       return 0;
-    if (position + len > this.length)
-      throw new EOFException();
-    if (off < 0 || off + len > b.length)
-      throw new ArrayIndexOutOfBoundsException();
     int bytesRead = readBytes(peer, position, b, off, len);
+    if (bytesRead == 0)
+      return -1;
     position += bytesRead;
     return bytesRead;
   }
@@ -95,15 +98,7 @@ public class RandomAccessFile implements DataInput, Closeable {
   public int read(byte b[]) throws IOException {
     if(b == null)
       throw new IllegalArgumentException();
-    if (peer == 0)
-      throw new IOException();
-    if(b.length == 0)
-      return 0;
-    if (position + b.length > this.length)
-      throw new EOFException();
-    int bytesRead = readBytes(peer, position, b, 0, b.length);
-    position += bytesRead;
-    return bytesRead;
+    return read(b, 0, b.length);
   }
 
   public void readFully(byte b[], int off, int len) throws IOException {
@@ -113,7 +108,7 @@ public class RandomAccessFile implements DataInput, Closeable {
       throw new IOException();
     if(len == 0)
       return;
-    if (position + len > this.length)
+    if (position + len > length())
       throw new EOFException();
     if (off < 0 || off + len > b.length)
       throw new ArrayIndexOutOfBoundsException();
-- 
2.43.0


From c6387510ddace05380c342540c1a92bd16a928ba Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 093/118] fix: FileChannel advances the buffer and honours its
 array offset

---
 classpath/java/io/RandomAccessFile.java | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index cc06ca4..5a23ee2 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -239,8 +239,12 @@ public class RandomAccessFile implements DataInput, Closeable {
       public int read(ByteBuffer dst, long position) throws IOException {
         if (!dst.hasArray()) throw new IOException("Cannot handle " + dst.getClass());
 	// TODO: this needs to be synchronized on the Buffer, no?
+        if (! dst.hasRemaining()) return 0;
         byte[] array = dst.array();
-        return readBytes(peer, position, array, dst.position(), dst.remaining());
+        int count = readBytes(peer, position, array, dst.arrayOffset() + dst.position(), dst.remaining());
+        if (count == 0) return -1;
+        dst.position(dst.position() + count);
+        return count;
       }
 
       public int read(ByteBuffer dst) throws IOException {
@@ -252,7 +256,9 @@ public class RandomAccessFile implements DataInput, Closeable {
       public int write(ByteBuffer src, long position) throws IOException {
         if (!src.hasArray()) throw new IOException("Cannot handle " + src.getClass());
         byte[] array = src.array();
-        return writeBytes(peer, position, array, src.position(), src.remaining());
+        int count = writeBytes(peer, position, array, src.arrayOffset() + src.position(), src.remaining());
+        if (count > 0) src.position(src.position() + count);
+        return count;
       }
 
       public int write(ByteBuffer src) throws IOException {
-- 
2.43.0


From d46e715f6caf6dde38ae87f75c6bbccdd8e9a5e5 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 094/118] fix: BufferedInputStream at its end: available is not
 negative, an empty read gives 0

---
 classpath/java/io/BufferedInputStream.java | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/BufferedInputStream.java b/classpath/java/io/BufferedInputStream.java
index 25a7441..b41702e 100644
--- a/classpath/java/io/BufferedInputStream.java
+++ b/classpath/java/io/BufferedInputStream.java
@@ -29,9 +29,13 @@ public class BufferedInputStream extends InputStream {
 
   private int fill() throws IOException {
     position = 0;
-    limit = in.read(buffer);
+    limit = 0;
+    int count = in.read(buffer);
+    if (count > 0) {
+      limit = count;
+    }
 
-    return limit;
+    return count;
   }
 
   public int read() throws IOException {
@@ -43,6 +47,10 @@ public class BufferedInputStream extends InputStream {
   }
 
   public int read(byte[] b, int offset, int length) throws IOException {
+    if (length == 0) {
+      return 0;
+    }
+
     int count = 0;
     if (position >= limit && fill() == -1) {
       return -1;
-- 
2.43.0


From 70a5f18227d82e5d326bc29fafb7061dbe5fd14a Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 095/118] fix: InputStream.skip of a negative count skips
 nothing

---
 classpath/java/io/InputStream.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/io/InputStream.java b/classpath/java/io/InputStream.java
index 8bac129..6ef71aa 100644
--- a/classpath/java/io/InputStream.java
+++ b/classpath/java/io/InputStream.java
@@ -34,6 +34,10 @@ public abstract class InputStream implements Closeable {
   }
 
   public long skip(long count) throws IOException {
+    if (count <= 0) {
+      return 0;
+    }
+
     final long Max = 8 * 1024;
     int size = (int) (count < Max ? count : Max);
     byte[] buffer = new byte[size];
-- 
2.43.0


From 60140fe3cebeeb4fc8cbcd596022fe6d2130bc8f Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 096/118] fix: InflaterInputStream.read of no bytes returns

---
 classpath/java/util/zip/InflaterInputStream.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/util/zip/InflaterInputStream.java b/classpath/java/util/zip/InflaterInputStream.java
index fcefaec..eb49bd6 100644
--- a/classpath/java/util/zip/InflaterInputStream.java
+++ b/classpath/java/util/zip/InflaterInputStream.java
@@ -41,6 +41,10 @@ public class InflaterInputStream extends InputStream {
   }
 
   public int read(byte[] b, int offset, int length) throws IOException {
+    if (length == 0) {
+      return 0;
+    }
+
     if (inflater.finished()) {
       return -1;
     }
-- 
2.43.0


From 59098f608a43a699ea622f299144b3513f62f02a Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 097/118] fix: BufferedReader.readLine takes a line feed which
 follows in the next buffer

---
 classpath/java/io/BufferedReader.java | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/classpath/java/io/BufferedReader.java b/classpath/java/io/BufferedReader.java
index 8d5a69b..b918cf1 100644
--- a/classpath/java/io/BufferedReader.java
+++ b/classpath/java/io/BufferedReader.java
@@ -16,6 +16,10 @@ public class BufferedReader extends Reader {
   private int position;
   private int limit;
 
+  // true if the last line read ended with a carriage return at the end
+  // of the buffer, so that a following line feed belongs to it
+  private boolean skipLineFeed;
+
   public BufferedReader(Reader in, int bufferSize) {
     this.in = in;
     this.buffer = new char[bufferSize];
@@ -26,8 +30,17 @@ public class BufferedReader extends Reader {
   }
   
   private void fill() throws IOException {
-    position = 0;
-    limit = in.read(buffer);
+    do {
+      position = 0;
+      limit = in.read(buffer);
+
+      if (skipLineFeed && limit > 0) {
+        skipLineFeed = false;
+        if (buffer[0] == '\n') {
+          position = 1;
+        }
+      }
+    } while (position == 1 && limit == 1);
   }
 
   public String readLine() throws IOException {
@@ -45,7 +58,9 @@ public class BufferedReader extends Reader {
         if(buffer[i] == '\r') {
           sb.append(buffer, position, i - position);
           position = i + 1;
-          if(i+1 < limit && buffer[i+1] == '\n') {
+          if (i + 1 == limit) {
+            skipLineFeed = true;
+          } else if (buffer[i+1] == '\n') {
             position = i + 2;
           }
           return sb.toString();
@@ -63,7 +78,7 @@ public class BufferedReader extends Reader {
   public int read(char[] b, int offset, int length) throws IOException {
     int count = 0;
 
-    if (position >= limit && length < buffer.length) {
+    if (position >= limit && (length < buffer.length || skipLineFeed)) {
       fill();
     }
 
-- 
2.43.0


From d23dcfadf4d93522260ea76d891b9af12048eea8 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 098/118] fix: LineNumberReader counts lines read with readLine

---
 classpath/java/io/LineNumberReader.java | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/classpath/java/io/LineNumberReader.java b/classpath/java/io/LineNumberReader.java
index f8860f4..f5ee259 100644
--- a/classpath/java/io/LineNumberReader.java
+++ b/classpath/java/io/LineNumberReader.java
@@ -29,6 +29,14 @@ public class LineNumberReader extends BufferedReader {
     line = v;
   }
   
+  public String readLine() throws IOException {
+    String s = super.readLine();
+    if (s != null) {
+      ++ line;
+    }
+    return s;
+  }
+
   public int read(char[] b, int offset, int length) throws IOException {
     int c = super.read(b, offset, length);
     for (int i = 0; i < c; ++i) {
-- 
2.43.0


From 2e27157b12edd7fc654b85bfc5e139107e870415 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 099/118] fix: DataOutputStream.writeBytes writes the low byte
 of each character

---
 classpath/java/io/DataOutputStream.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classpath/java/io/DataOutputStream.java b/classpath/java/io/DataOutputStream.java
index 0bec001..7e1f70c 100644
--- a/classpath/java/io/DataOutputStream.java
+++ b/classpath/java/io/DataOutputStream.java
@@ -88,7 +88,9 @@ public class DataOutputStream extends OutputStream implements DataOutput {
   }
 
   public void writeBytes(String s) throws IOException {
-    out.write(s.getBytes());
+    for (int i = 0; i < s.length(); ++i) {
+      out.write(s.charAt(i) & 0xff);
+    }
   }
 
   public void writeUTF(String s) throws IOException {
-- 
2.43.0


From 58dbfc64a19ea087c6d455c271de5655dc74ace5 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 100/118] fix: LineNumberReader counts the line feeds in the
 part of the array it filled

---
 classpath/java/io/LineNumberReader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/io/LineNumberReader.java b/classpath/java/io/LineNumberReader.java
index f5ee259..6fe6532 100644
--- a/classpath/java/io/LineNumberReader.java
+++ b/classpath/java/io/LineNumberReader.java
@@ -40,7 +40,7 @@ public class LineNumberReader extends BufferedReader {
   public int read(char[] b, int offset, int length) throws IOException {
     int c = super.read(b, offset, length);
     for (int i = 0; i < c; ++i) {
-      if (b[i] == '\n') {
+      if (b[offset + i] == '\n') {
         ++ line;
       }
     }
-- 
2.43.0


From 7f3a99e6fd7d33fd5ba3575c804c246f9bb4d005 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 101/118] fix: Writer.append of a part of a sequence

---
 classpath/java/io/Writer.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/io/Writer.java b/classpath/java/io/Writer.java
index 60f0ccd..dba9a51 100644
--- a/classpath/java/io/Writer.java
+++ b/classpath/java/io/Writer.java
@@ -50,7 +50,7 @@ public abstract class Writer implements Closeable, Flushable, Appendable {
     } else {
       final char[] charArray = new char[length];
       for (int i = start; i < end; i++) { 
-        charArray[i] = sequence.charAt(i);
+        charArray[i - start] = sequence.charAt(i);
       }
       write(charArray, 0, length);
     }
-- 
2.43.0


From 7ff79b54c3728da16857a1bc9b22b3a077ea278d Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 102/118] fix: FileInputStream.read of no bytes is not the end
 of the file

---
 classpath/java/io/FileInputStream.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/io/FileInputStream.java b/classpath/java/io/FileInputStream.java
index e2e7fa6..fc67bf5 100644
--- a/classpath/java/io/FileInputStream.java
+++ b/classpath/java/io/FileInputStream.java
@@ -61,6 +61,10 @@ public class FileInputStream extends InputStream {
       throw new ArrayIndexOutOfBoundsException();
     }
 
+    if (length == 0) {
+      return 0;
+    }
+
     int c = read(fd, b, offset, length);
     if (c > 0 && remaining > 0) {
       remaining -= c;
-- 
2.43.0


From 40ec086cfc1ef067440d7ae7e9ba6452b79fb9cc Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 103/118] fix: Deflater compresses an empty input

---
 classpath/java/util/zip/Deflater.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/zip/Deflater.java b/classpath/java/util/zip/Deflater.java
index 7a86294..2f82dc8 100644
--- a/classpath/java/util/zip/Deflater.java
+++ b/classpath/java/util/zip/Deflater.java
@@ -15,13 +15,14 @@ public class Deflater {
   private static final int Z_OK = 0;
   private static final int Z_STREAM_END = 1;
   private static final int Z_NEED_DICT = 2;
+  private static final byte[] NoInput = new byte[0];
 
 //   static {
 //     System.loadLibrary("natives");
 //   }
 
   private long peer;
-  private byte[] input;
+  private byte[] input = NoInput;
   private int offset;
   private int length;
   private boolean needDictionary;
@@ -88,7 +89,7 @@ public class Deflater {
   public void reset() {
     dispose();
     peer = make(nowrap, DEFAULT_LEVEL);
-    input = null;
+    input = NoInput;
     offset = length = 0;
     finish = false;
     needDictionary = finished = false;
-- 
2.43.0


From f689e381c2f5dcaca8d6b94364948035db24eb6f Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 104/118] fix: FileInputStream.read stores only the bytes it
 read

---
 classpath/java-io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classpath/java-io.cpp b/classpath/java-io.cpp
index dc76e5f..ef5a6fd 100644
--- a/classpath/java-io.cpp
+++ b/classpath/java-io.cpp
@@ -770,7 +770,9 @@ extern "C" JNIEXPORT jint JNICALL
 
   int r = doRead(e, fd, data, length);
 
-  e->SetByteArrayRegion(b, offset, length, data);
+  if (r > 0) {
+    e->SetByteArrayRegion(b, offset, r, data);
+  }
 
   free(data);
 
-- 
2.43.0


From 07b784d1bfa4ebc2695699b948ddf28c5d871c77 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 105/118] fix: LinkedBlockingQueue.addAll and clear wake the
 threads which wait

---
 classpath/java/util/concurrent/LinkedBlockingQueue.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classpath/java/util/concurrent/LinkedBlockingQueue.java b/classpath/java/util/concurrent/LinkedBlockingQueue.java
index 49be16c..6de785c 100644
--- a/classpath/java/util/concurrent/LinkedBlockingQueue.java
+++ b/classpath/java/util/concurrent/LinkedBlockingQueue.java
@@ -143,6 +143,7 @@ public class LinkedBlockingQueue<T> extends AbstractQueue<T>
         return false;
       } else {
         storage.addAll(c);
+        handleAdd();
         
         return true;
       }
@@ -278,6 +279,7 @@ public class LinkedBlockingQueue<T> extends AbstractQueue<T>
   public void clear() {
     synchronized (collectionLock) {
       storage.clear();
+      handleRemove();
     }
   }
 
-- 
2.43.0


From ab8f1352ff95ebc0d0d7f4a229133b7635bed9f8 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 106/118] fix: ConcurrentHashMap keeps the mappings of other
 keys with the same hash

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index abb0713..c0a621c 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -212,7 +212,7 @@ public class ConcurrentHashMap<K,V>
         return null;
       }
 
-      node.value = new Cell(key, value, null);
+      node.value = new Cell(key, value, path.value().value);
       if (unsafe.compareAndSwapObject
           (this, Content, content, new Content
            (path.fresh() ? path.add() : path.replaceWith(node),
-- 
2.43.0


From a5aa58b66275f8e724e940287d10feb92dc488cb Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 107/118] fix: FutureTask.get with a timeout returns what is
 there already

---
 classpath/java/util/concurrent/FutureTask.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/concurrent/FutureTask.java b/classpath/java/util/concurrent/FutureTask.java
index 967d2c8..fbe4c99 100644
--- a/classpath/java/util/concurrent/FutureTask.java
+++ b/classpath/java/util/concurrent/FutureTask.java
@@ -156,7 +156,7 @@ public class FutureTask<T> implements RunnableFuture<T> {
       }
     }
     
-    if (remainingTime <= 0) {
+    if (! isDone()) {
       throw new TimeoutException();
     } else if (currentState.get() == State.Canceled) {
       throw new CancellationException();
-- 
2.43.0


From f5f8add8c88ebbd717b4083b65c4a9a5162bc338 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 108/118] fix: FutureTask.cancel waits for a starting task to
 be interruptible

---
 classpath/java/util/concurrent/FutureTask.java | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/classpath/java/util/concurrent/FutureTask.java b/classpath/java/util/concurrent/FutureTask.java
index fbe4c99..e4b7149 100644
--- a/classpath/java/util/concurrent/FutureTask.java
+++ b/classpath/java/util/concurrent/FutureTask.java
@@ -100,12 +100,15 @@ public class FutureTask<T> implements RunnableFuture<T> {
                currentState.compareAndSet(State.Running, State.Canceling)) {
       // handleDone will be called from running thread
       try {
-        Thread runningThread = this.runningThread;
-        if (runningThread != null) {
-          runningThread.interrupt();
-          
-          return true;
+        // the thread which runs the task sets this just after the state,
+        // and waits for us before it resets it
+        Thread runningThread;
+        while ((runningThread = this.runningThread) == null) {
+          Thread.yield();
         }
+        runningThread.interrupt();
+
+        return true;
       } finally {
         // we can not set to canceled until interrupt status has been set
         currentState.set(State.Canceled);
-- 
2.43.0


From 89ed4bd5ba769fe8a30e26f355610ddee3a52099 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:40:10 +0000
Subject: [PATCH 109/118] fix: ConcurrentHashMap compares hash codes without
 overflow

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index c0a621c..1838c0b 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -365,7 +365,7 @@ public class ConcurrentHashMap<K,V>
     }
 
     public int compareTo(Node<T> n) {
-      return key - n.key;
+      return key < n.key ? -1 : key > n.key ? 1 : 0;
     }
   }
 
-- 
2.43.0


From 622b06f1aa5825e6ed40c1fb96fc551a347476e2 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:40:10 +0000
Subject: [PATCH 110/118] fix: an entry of a ConcurrentHashMap returns its old
 value when it is set

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index 1838c0b..550d825 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -387,7 +387,7 @@ public class ConcurrentHashMap<K,V>
     }
 
     public V setValue(V value) {
-      V v = value;
+      V v = this.value;
       this.value = value;
       put(key, value);
       return v;
-- 
2.43.0


From bbc27898ffe69a98fe3285f54d81f0eb288d02c5 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:41:04 +0000
Subject: [PATCH 111/118] fix: the views of a ConcurrentHashMap answer for a
 missing key

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index 550d825..1e4ff4f 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -307,12 +307,14 @@ public class ConcurrentHashMap<K,V>
     }
 
     public Map.Entry<K,V> find(Object key) {
-      return new MyEntry(ConcurrentHashMap.this.find(key));
+      Cell<K,V> cell = ConcurrentHashMap.this.find(key);
+      return cell == null ? null : new MyEntry(cell);
     }
 
     public Map.Entry<K,V> remove(Object key) {
-      return new MyEntry
-        (ConcurrentHashMap.this.remove(key, RemoveCondition.Always, null));
+      Cell<K,V> cell = ConcurrentHashMap.this.remove
+        (key, RemoveCondition.Always, null);
+      return cell == null ? null : new MyEntry(cell);
     }
 
     public void clear() {
-- 
2.43.0


From cf42717f095eab9eebe99d9560d68ca7079100c9 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 112/118] fix: a new thread takes its priority and daemon
 status from its creator

---
 classpath/java/lang/Thread.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 758ff36..2121f45 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -56,6 +56,8 @@ public class Thread implements Runnable {
     }
 
     classLoader = current.classLoader;
+    daemon = current.daemon;
+    priority = current.priority;
   }
 
   public Thread(ThreadGroup group, Runnable task, String name) {
-- 
2.43.0


From 13137b0d0a08b264c93893560d00a93c152bc02f Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 113/118] fix: Thread.start and setDaemon throw
 IllegalThreadStateException

---
 classpath/java/lang/Thread.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 2121f45..bb23a19 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -86,7 +86,7 @@ public class Thread implements Runnable {
 
   public synchronized void start() {
     if (peer != 0) {
-      throw new IllegalStateException("thread already started");
+      throw new IllegalThreadStateException("thread already started");
     }
 
     state = (byte) State.RUNNABLE.ordinal();
@@ -256,8 +256,8 @@ public class Thread implements Runnable {
   }
 
   public synchronized void setDaemon(boolean v) {
-    if (getState() != State.NEW) {
-      throw new IllegalStateException();
+    if (isAlive()) {
+      throw new IllegalThreadStateException();
     }
 
     daemon = v;
-- 
2.43.0


From 3fcb59af753974f564b2938d2064940a25d43c3b Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 114/118] fix: joining a thread which was not started returns,
 and join(0) waits for the end

---
 classpath/java/lang/Thread.java | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index bb23a19..964eaba 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -266,16 +266,21 @@ public class Thread implements Runnable {
   public static native void yield();
 
   public synchronized void join() throws InterruptedException {
-    while (getState() != State.TERMINATED) {
+    while (isAlive()) {
       wait();
     }
   }
 
   public synchronized void join(long milliseconds) throws InterruptedException
   {
+    if (milliseconds == 0) {
+      join();
+      return;
+    }
+
     long then = System.currentTimeMillis();
     long remaining = milliseconds;
-    while (remaining > 0 && getState() != State.TERMINATED) {
+    while (remaining > 0 && isAlive()) {
       wait(remaining);
 
       remaining = milliseconds - (System.currentTimeMillis() - then);
-- 
2.43.0


From 5b65761a7a9582827761fa9b5e041cfdd011049b Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 115/118] fix: an uncaught exception is handed to the group of
 the thread

---
 classpath/java/lang/Thread.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 964eaba..5300b68 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -104,7 +104,7 @@ public class Thread implements Runnable {
     try {
       t.run();
     } catch (Throwable e) {
-      UncaughtExceptionHandler eh = t.exceptionHandler;
+      UncaughtExceptionHandler eh = t.getUncaughtExceptionHandler();
       UncaughtExceptionHandler deh = defaultExceptionHandler;
       if (eh != null) {
         eh.uncaughtException(t, e);
-- 
2.43.0


From 248246f83b2c7191d1ae46131093fce1c3562956 Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 116/118] fix: InheritableThreadLocal.childValue is given null,
 not its stand-in

---
 classpath/java/lang/Thread.java      | 3 ++-
 classpath/java/lang/ThreadLocal.java | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 5300b68..2b694a6 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -50,7 +50,8 @@ public class Thread implements Runnable {
       for (Map.Entry<ThreadLocal, Object> e: map.entrySet()) {
         if (e.getKey() instanceof InheritableThreadLocal) {
           InheritableThreadLocal itl = (InheritableThreadLocal) e.getKey();
-          locals().put(itl, itl.childValue(e.getValue()));
+          locals().put(itl, ThreadLocal.wrap
+                       (itl.childValue(ThreadLocal.unwrap(e.getValue()))));
         }
       }
     }
diff --git a/classpath/java/lang/ThreadLocal.java b/classpath/java/lang/ThreadLocal.java
index b15112a..4fce325 100644
--- a/classpath/java/lang/ThreadLocal.java
+++ b/classpath/java/lang/ThreadLocal.java
@@ -15,6 +15,14 @@ import java.util.Map;
 public class ThreadLocal<T> {
   private static final Object Null = new Object();
 
+  static Object wrap(Object value) {
+    return value == null ? Null : value;
+  }
+
+  static Object unwrap(Object value) {
+    return value == Null ? null : value;
+  }
+
   protected T initialValue() {
     return null;
   }
-- 
2.43.0


From 7b0b4232275525a670940bad62054fef9176c61f Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:54:45 +0000
Subject: [PATCH 117/118] fix: Thread(ThreadGroup, String) puts the thread into
 the group

---
 classpath/java/lang/Thread.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 2b694a6..302f416 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -66,7 +66,7 @@ public class Thread implements Runnable {
   }
 
   public Thread(ThreadGroup group, String name) {
-    this(null, null, name);
+    this(group, null, name);
   }
 
   public Thread(Runnable task, String name) {
-- 
2.43.0


From 874a49ef8b6f49483e821af88a2ed2390df4224e Mon Sep 17 00:00:00 2001
From: avian <avian@localhost>
Date: Fri, 20 Nov 2026 04:54:45 +0000
Subject: [PATCH 118/118] fix: a thread which has ended cannot be started again

---
 classpath/java/lang/Thread.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 302f416..e3c8810 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -86,7 +86,7 @@ public class Thread implements Runnable {
   }
 
   public synchronized void start() {
-    if (peer != 0) {
+    if (getState() != State.NEW) {
       throw new IllegalThreadStateException("thread already started");
     }
 
-- 
2.43.0

