From 0f31f0e99920d41fef4b3567b767af787633c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 01/45] fix: Vector copy must not destroy elements that were
 never constructed

---
 core/ds/array/Vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 5032e34..c13bb38 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -36,7 +36,6 @@ public: // big five
         resize(ds.mCapacity_d);
         mSize_d = ds.mSize_d;
         for (int i = 0; i < mSize_d; i++) {
-            dstruct::destroy(mC_d + i);
             dstruct::construct(mC_d + i, ds.mC_d[i]);
         }
         return *this;
-- 
2.43.0


From 629bae63ee737b46ad527b2ffd33d087c0e69c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 02/45] fix: Vector push_back/resize keep the element alive
 while the memory is replaced

---
 core/ds/array/Vector.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c13bb38..a2500be 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,10 +96,13 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
+            ValueType obj(element); // element may be in this vector, resize will release it
             if (mSize_d)
                 resize(2 * mSize_d);
             else
                 resize(2);
+            push_back(obj);
+            return;
         }
         dstruct::construct(mC_d + mSize_d, element);
         mSize_d++;
@@ -190,6 +193,11 @@ public:
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
 
+        // set (before release, element may be in the old memory)
+        for (int i = mSize_d; i < n; i++) {
+            dstruct::construct(mC_d + i, element);
+        }
+
         // release
         if (oldC) {
             for (int i = 0; i < mSize_d; i++) {
@@ -200,11 +208,6 @@ public:
             Vector::Alloc_::deallocate(oldC, mCapacity_d);
         }
 
-        // set
-        for (int i = mSize_d; i < n; i++) {
-            dstruct::construct(mC_d + i, element);
-        }
-
         mCapacity_d = mSize_d = n;
     }
 
-- 
2.43.0


From e040ee598392205f43b6afe639705ec062146b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 03/45] fix: SinglyLinkedList copy advances through the source
 and keeps its own tail

---
 core/ds/linked-list/SinglyLinkedList.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 66cf9b2..d6df1a9 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -77,10 +77,9 @@ public: // big five
                 push_back(nodePtr->data);
                 linkPtr = nextLinkPtr;
                 nextLinkPtr = nextLinkPtr->next;
-                auto nodePtr = Node_::to_node(linkPtr);
+                nodePtr = Node_::to_node(linkPtr);
             }
-            push_back(nodePtr->data);
-            mTailNodePtr_d = nodePtr;
+            push_back(nodePtr->data); // mTailNodePtr_d updated by push_back
         }
         return *this;
     }
-- 
2.43.0


From 777624413b26ccdb6b5ef7d7b000ac6212ba67fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 04/45] fix: SinglyLinkedList push/pop maintain the tail
 pointer

---
 core/ds/linked-list/SinglyLinkedList.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index d6df1a9..9f5695b 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -115,12 +115,20 @@ public:
         mTailNodePtr_d = nPtr;
     }
 
+    void push(const T &obj) {
+        push_front(obj);
+    }
+
     void push_front(const T &obj) {
         List_::push_front(obj);
         if (mSize_d == 1)
             mTailNodePtr_d = Node_::to_node(mHeadNode_d.link.next);
     }
 
+    void pop() {
+        pop_front();
+    }
+
     void pop_front() {
         List_::pop_front();
         if (mSize_d == 0)
-- 
2.43.0


From 1415540b026709a87c39e316d65b50c3e2af3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 05/45] fix: moving from an empty linked list leaves the target
 empty

---
 core/ds/linked-list/DoublyLinkedList.hpp | 3 +++
 core/ds/linked-list/SinglyLinkedList.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ds/linked-list/DoublyLinkedList.hpp b/core/ds/linked-list/DoublyLinkedList.hpp
index 54a96a4..6c68c8b 100644
--- a/core/ds/linked-list/DoublyLinkedList.hpp
+++ b/core/ds/linked-list/DoublyLinkedList.hpp
@@ -86,6 +86,9 @@ public: // big five
         // move list data
         List_::operator=(dstruct::move(ds));
         // update link: first-data and last-data point to new headNode
+        if (mSize_d == 0) { // head-link isn't in the list of ds
+            Node_::init(&mHeadNode_d);
+        }
         auto headLinkPtr = Node_::to_link(&mHeadNode_d);
         mHeadNode_d.link.prev->next = headLinkPtr;
         mHeadNode_d.link.next->prev = headLinkPtr;
diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 9f5695b..85350e4 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -87,7 +87,7 @@ public: // big five
     DSTRUCT_MOVE_SEMANTICS(SinglyLinkedList) {
         // move list
         List_::operator=(dstruct::move(ds));
-        mTailNodePtr_d = ds.mTailNodePtr_d;
+        mTailNodePtr_d = mSize_d == 0 ? &mHeadNode_d : ds.mTailNodePtr_d;
         mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
         // reset
         ds.mTailNodePtr_d = &(ds.mHeadNode_d);
-- 
2.43.0


From 9f33ae1379de4618ae4125053f31d81365a645c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 06/45] fix: align the pool of StaticMemAllocator to
 SMA_MEM_ALIGN

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1d8c0ed..de42480 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -138,7 +138,7 @@ public: // mem-manager interface
 
 protected:
     int mFreeMemSize_d;
-    char mMemoryPool_d[MEMORY_SIZE];
+    alignas(SMA_MEM_ALIGN) char mMemoryPool_d[MEMORY_SIZE];
     dstruct::Array<Link_e, MAX_BLOCK_SIZE / SMA_MEM_ALIGN + 1/*MemPoolManager*/> mFreeMemList_d;
 
     static StaticMemAllocator & Instance_() {
-- 
2.43.0


From 5cf5f5b057098b966b4c55fe41bd37df7513f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 07/45] fix: DoubleEndedQueue works with any allocator and uses
 it for its map table

---
 core/ds/queue/DoubleEndedQueue.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d94b131..c4e4287 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -20,13 +20,13 @@ namespace dstruct {
 template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueue;
 
-template <typename T, size_t ARR_SIZE>
+template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueueIterator_ : public DStructIteratorTypeSpec<T, RandomIterator> {
-    friend class DoubleEndedQueue<T, ARR_SIZE, dstruct::Alloc>;
-    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE>; // for it -> const-it
+    friend class DoubleEndedQueue<T, ARR_SIZE, Alloc>;
+    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>; // for it -> const-it
 protected:
     using Array_         = dstruct::Array<T, ARR_SIZE>;
-    using ArrMapTable_   = dstruct::Vector<Array_ *>;
+    using ArrMapTable_   = dstruct::Vector<Array_ *, Alloc>;
 private:
     using Self = DoubleEndedQueueIterator_;
 
@@ -75,7 +75,7 @@ public:
 
     // for it -> const-it
     DoubleEndedQueueIterator_(
-        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE> &obj,
+        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE, Alloc> &obj,
         bool _unsedFlag // constructor dispatch flag
     ) : DoubleEndedQueueIterator_() {
 
@@ -157,12 +157,12 @@ protected:
  
 template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueue :
-    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE>, DoubleEndedQueueIterator_<const T, ARR_SIZE>> {
+    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE, Alloc>, DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>> {
 
 protected:
     using Array_         = Array<T, ARR_SIZE>;
     using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;
-    using ArrMapTable_   = Vector<Array_ *>;
+    using ArrMapTable_   = Vector<Array_ *, Alloc>;
 /*
     struct Block_ {
         typename ArrMapTable_::IteratorType arr; // point to Array
-- 
2.43.0


From 28cd0e865a9e60387f6dd1d80129a300bf2fa94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 08/45] fix: iterators of a moved DoubleEndedQueue point to its
 own map table

---
 core/ds/queue/DoubleEndedQueue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index c4e4287..d01fda4 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -192,6 +192,8 @@ public:
         mArrMapTable_d = dstruct::move(ds.mArrMapTable_d);
         mBegin_d = dstruct::move(ds.mBegin_d);
         mEnd_d = dstruct::move(ds.mEnd_d);
+        // iterators point to the new map table
+        mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;
 
         // reset ds
         ds.mSize_d = ds.mCapacity_d = 0;
-- 
2.43.0


From ae9dacf091b22488bad8f74d6cf96905cf187e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 09/45] fix: an empty DoubleEndedQueue has equal, initialized
 begin and end

---
 core/ds/queue/DoubleEndedQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d01fda4..c73f99c 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -31,7 +31,7 @@ private:
     using Self = DoubleEndedQueueIterator_;
 
 protected: // only for DoubleEndedQueue
-    DoubleEndedQueueIterator_() : mArrMapTablePtr_d { nullptr } { }
+    DoubleEndedQueueIterator_() : mCurrMapIndex_d { 0 }, mCurr_d { nullptr }, mArrMapTablePtr_d { nullptr } { _sync(); }
 
 public:
     DoubleEndedQueueIterator_(
@@ -325,7 +325,7 @@ protected:
             // reset
             mSize_d = mCapacity_d = 0;
             mArrMapTable_d.clear();
-            //mBegin_d = mEnd_d = nullptr;
+            mBegin_d = mEnd_d = decltype(mBegin_d)();
         }
     }
 
-- 
2.43.0


From 86874e1a592354173e5f03e10ccdbab4a63b0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 10/45] fix: DoubleEndedQueue constructs elements in raw
 blocks, not over live ones

---
 core/ds/queue/DoubleEndedQueue.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index c73f99c..de1d30b 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -339,8 +339,8 @@ protected:
         mArrMapTable_d.resize(MIN_MAP_TABLE_SIZE, nullptr);
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
-            mArrMapTable_d[i] = AllocArray_::allocate();
-            dstruct::construct(mArrMapTable_d[i], Array_());
+            mArrMapTable_d[i] = AllocArray_::allocate(); // raw memory, element is constructed by push
+            DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr);
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -378,7 +378,7 @@ protected:
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
                 mArrMapTable_d[i] = AllocArray_::allocate();
-                dstruct::construct(mArrMapTable_d[i], Array_());
+                DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr);
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
-- 
2.43.0


From af79504eebdb9beafb92de3713885c14fdd9c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 11/45] fix: DoubleEndedQueue positions are distinguished by
 block, not only by address

---
 core/ds/queue/DoubleEndedQueue.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index de1d30b..c693b20 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -87,6 +87,12 @@ public:
             _sync();
     }
 
+public: // Note: blocks may be adjacent in memory, so end of a block can equal begin of other block
+    bool operator==(const Self &it) const {
+        return mCurrMapIndex_d == it.mCurrMapIndex_d && Self::mPointer_d == it.mPointer_d;
+    }
+    bool operator!=(const Self &it) const { return !(*this == it); }
+
 public: // ForwardIterator
     Self& operator++() {
         static int cnt = 1;
@@ -403,7 +409,7 @@ protected:
             mEnd_d._sync();
 
             // only if old_mEnd == mBegin_d
-            if (mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+            if (mSize_d == 0) {
                 mBegin_d = mEnd_d;
             }
         }
-- 
2.43.0


From 44e2388f26665b6e86318fc79b55ae89af4d9da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 12/45] fix: DoubleEndedQueue shrinks when its elements fit in
 the smaller map table

---
 core/ds/queue/DoubleEndedQueue.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index c693b20..c199f3f 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -369,11 +369,8 @@ protected:
         size_t newArrStartIndex = ((n - mSize_d) / 2) / ARR_SIZE;
         size_t newArrEndIndex = newArrStartIndex + arrNum;
 
-        // request: n / ARR_SIZE <= ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-        // n = y * oldCapacity  
-        if (!isExtend && newMapTableSize >= arrNum) {
-            // when arrNum = ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-            // exist newMapTableSize < arrNum
+        // shrink: only when used arrs(and one more for end) fit in the new map table
+        if (!isExtend && newArrEndIndex + 1 >= newMapTableSize) {
             return;
         }
 
-- 
2.43.0


From 0785ad546304ee6d74b26a2afcda088840c96d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 13/45] fix: XValueStack keeps the extreme value when an equal
 value is pushed

---
 core/ds/stack/XValueStack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 4d1a174..2d8d94c 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -51,7 +51,7 @@ public:
     T getXValue() const { return mXValue_d; }
 
     void push(const T &val) {
-        if (mStack_d.empty() || mCmp_d(val, mXValue_d)) {
+        if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) {
             mStack_d.push(mXValue_d); // save XValue
             mXValue_d = val;
         }
-- 
2.43.0


From b0aaa814748a9e7c32a0e51818f1161aee00d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 14/45] fix: moving a Heap onto itself keeps its elements

---
 core/ds/Heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/Heap.hpp b/core/ds/Heap.hpp
index d2b98f1..f369db5 100644
--- a/core/ds/Heap.hpp
+++ b/core/ds/Heap.hpp
@@ -50,6 +50,7 @@ public:
 
     Heap(Heap &&hep) { *this = dstruct::move(hep); }
     Heap & operator=(Heap &&hep) {
+        if (this == &hep) return *this;
         this->mCmp_d = hep.mCmp_d;
         this->mHeap_d = dstruct::move(hep.mHeap_d);
         hep.mHeap_d.resize(1, this->mHeap_d[0]);
-- 
2.43.0


From 25e9fdd8bab634ba4cc882e38db4cd59e94607af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 15/45] fix: pushing a present value does not change the size
 of a BinarySearchTree

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 64aa446..ad5ee1c 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -70,7 +70,6 @@ public: // push/pop
         auto tree = _insert(obj);
         if (BinaryTree_e::mRootPtr_d == nullptr)
             BinaryTree_e::_update_root(tree);
-        BinaryTree_e::mSize_d++;
     }
 
     void pop(const T &obj) {
@@ -166,6 +165,7 @@ protected:
         auto nodePtr = AllocNode_::allocate();
         auto newNodeLink = Node_::to_link(nodePtr);
         dstruct::construct(nodePtr, Node_(obj));
+        BinaryTree_e::mSize_d++;
 
         if (parent != nullptr) { // nodePtr isn't root
             newNodeLink->parent = parent;
-- 
2.43.0


From d1dfe478e5ed0bd1fd40263992a65c2cdec5844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 16/45] fix: removing an absent value leaves a
 BinarySearchTree/AVLTree unchanged

---
 core/ds/tree/AVLTree.hpp          | 1 +
 core/ds/tree/BinarySearchTree.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index df3ff65..42db277 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -297,6 +297,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // not found
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data.val)) {
             root->left = _delete(root->left, obj);
diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index ad5ee1c..91cb20b 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -187,6 +187,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // not found
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From 4fb3d1678959e70140e1ae9ae6c74194f4a8960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 17/45] fix: BinarySearchTree finds the leftmost node of the
 right sub-tree when it deletes a node with two children

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 91cb20b..4040cf9 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -210,7 +210,7 @@ protected:
         } else { // have l and r, haven't del the node directly
             // step1: find right-bot
             typename Node_::LinkType *tmp = linkPtr->right;
-            while (nullptr == tmp->left) {
+            while (nullptr != tmp->left) {
                 tmp = tmp->left;
             }
 
-- 
2.43.0


From 3d99c07f13d6f838f4bf9b828eac45d2591f80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 18/45] fix: BinarySearchTree::erase takes the node from the
 iterator

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 4040cf9..080be09 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -94,7 +94,7 @@ public:
     typename BinarySearchTree::ConstIteratorType
     erase(typename BinarySearchTree::ConstIteratorType it) {
 
-        auto target = Node_::data_to_link(it.operator->());
+        auto target = it._get_link_pointer();
         auto parent = target->parent;
         auto next = it; it++; // get next node
 
-- 
2.43.0


From 2c8c47427e97a8038e8339380dc9736b2e356109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 19/45] fix: begin and traversal of an empty tree do not read
 the missing root

---
 core/ds/tree/BinaryTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 382ed99..c5a6bca 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -211,6 +211,7 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
+        if (first == nullptr) return nullptr; // empty tree
         if (ttype != TraversalType::PreOrder) {
             while (first->left != nullptr) {
                 first = first->left;
-- 
2.43.0


From 68e778b8fa57bc8fe6a922151911b0f1e03dcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 20/45] fix: tree traversal starts at the root in every order

---
 core/ds/tree/BinaryTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index c5a6bca..445dbb5 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -155,17 +155,17 @@ public: // algo
 
         switch (ttype) {
             case TraversalType::PreOrder:
-                return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::InOrder:
-                return  tree::inorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::inorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::PostOrder:
-                return  tree::postorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::postorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             default: {
                 DSTRUCT_ASSERT(false);
             }
         }
 
-        return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+        return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
     }
 
 public: // range-for and iterator
-- 
2.43.0


From 1d6777929001832e4898ff3e1afc5a720b80cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 21/45] fix: post-order iteration starts at the first leaf and
 visits children before their parent

---
 core/ds/tree/BinaryTree.hpp         | 4 ++--
 core/ds/tree/EmbeddedBinaryTree.hpp | 9 +++------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 445dbb5..bcda37d 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -213,8 +213,8 @@ public:
         auto first = root;
         if (first == nullptr) return nullptr; // empty tree
         if (ttype != TraversalType::PreOrder) {
-            while (first->left != nullptr) {
-                first = first->left;
+            while (first->left != nullptr || (ttype == TraversalType::PostOrder && first->right != nullptr)) {
+                first = first->left != nullptr ? first->left : first->right;
             }
         }
         return first;
diff --git a/core/ds/tree/EmbeddedBinaryTree.hpp b/core/ds/tree/EmbeddedBinaryTree.hpp
index a86f18d..bd20f6b 100644
--- a/core/ds/tree/EmbeddedBinaryTree.hpp
+++ b/core/ds/tree/EmbeddedBinaryTree.hpp
@@ -140,8 +140,9 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return nullptr;
     }
 
-    if (link->right != nullptr) {
-        link = link->right;
+    // link->parent != nullptr : root check
+    if (link->parent != nullptr && link->parent->left == link && link->parent->right != nullptr) {
+        link = link->parent->right;
         while (link->left != nullptr || link->right != nullptr) {
             if (link->left != nullptr) {
                 link = link->left;
@@ -152,10 +153,6 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return link;
     }
 
-    // link->parent != nullptr : root check
-    while (link->parent != nullptr && link->parent->right == link) {
-        link = link->parent;
-    }
     return link->parent;
 }
 
-- 
2.43.0


From 4487c3e78b5752acec73c453c89fba84ef7a4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 22/45] fix: BinaryTree::copy compiles and constructs the
 copied nodes

---
 core/ds/tree/BinaryTree.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index bcda37d..73cdf73 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -184,16 +184,17 @@ public:
             return nullptr;
 
         Node_ *newRoot = AllocNode_::allocate();
-        newRoot->data = root->data;
-        newRoot->parent = nullptr;
+        dstruct::construct(newRoot, Node_(root->data));
 
-        newRoot->left = copy(root->left);
-        if (newRoot->left)
-            newRoot->left->parent = newRoot;
+        if (root->link.left) {
+            newRoot->link.left = Node_::to_link(copy(Node_::to_node(root->link.left)));
+            newRoot->link.left->parent = Node_::to_link(newRoot);
+        }
 
-        newRoot->right = copy(root->right);
-        if (newRoot->right)
-            newRoot->right->parent = newRoot;
+        if (root->link.right) {
+            newRoot->link.right = Node_::to_link(copy(Node_::to_node(root->link.right)));
+            newRoot->link.right->parent = Node_::to_link(newRoot);
+        }
 
         return newRoot;
     }
-- 
2.43.0


From ec4a80d33e1fecc3c18bf933ec9004bce447462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 23/45] fix: copying and moving an AVLTree do not share its
 nodes

---
 core/ds/tree/AVLTree.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 42db277..a874708 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -109,6 +109,31 @@ public:
 public:
     AVLTree(CMP cmp = CMP()) : BinaryTree_e { nullptr, 0 }, mCmp_d { cmp } { }
 
+    DSTRUCT_COPY_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+        return *this;
+    }
+
+    DSTRUCT_MOVE_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+
+        // move
+        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+
+        // reset
+        ds.mRootPtr_d = nullptr;
+        ds.mSize_d = 0;
+
+        return *this;
+    }
+
+    ~AVLTree() = default;
+
 public:
     void push(const T &element) {
         auto root = _insert(Node_::to_link(BinaryTree_e::mRootPtr_d), element);
-- 
2.43.0


From 1dbab311a58801a560ace1e44f3b42450ff6f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 24/45] fix: AVLTree::erase updates the root when it deletes a
 root with at most one child

---
 core/ds/tree/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index a874708..43dee8e 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -291,6 +291,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(nullptr);
             }
 
             _real_delete(target);
@@ -313,6 +315,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(child);
             }
 
             _real_delete(target);
-- 
2.43.0


From 98f6390197d1b40cc52eb75d6ff5f8ad389a5cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 25/45] fix: AVLTree::erase does not copy the next element, so
 that Map::erase compiles

---
 core/ds/tree/AVLTree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 43dee8e..f16d67c 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -166,17 +166,10 @@ public:
     erase(typename AVLTree::ConstIteratorType it) {
         auto target = it._get_link_pointer();
         decltype(it) next = ++it;
-        typename RemoveConst<T>::Type nextData;
-        bool needUpdateNext = false;
-        
-        if (next._get_link_pointer() != nullptr) {
-            nextData = *next;
-            needUpdateNext = true;
-        }
 
-        _delete_by_target(target);
+        _delete_by_target(target); // nodes are relinked, not copied: next stays valid
 
-        return needUpdateNext ? find(nextData) : next;
+        return next;
     }
 
     int height() const {
-- 
2.43.0


From fac775316a72033bf1dbeeb9198ab2804e82270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 26/45] fix: AVLTree begin/end use the requested traversal
 order

---
 core/ds/tree/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index f16d67c..f52dfce 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -180,12 +180,12 @@ public: // range-for and iterator
 
     typename AVLTree::ConstIteratorType
     begin(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::begin();
+        return BinaryTree_e::begin(ttype);
     }
 
     typename AVLTree::ConstIteratorType
     end(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::end();
+        return BinaryTree_e::end(ttype);
     }
 
 protected:
-- 
2.43.0


From 96732200fb4bbe26a7996f13ca555940030793ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 27/45] fix: a constant Map can be searched

---
 core/ds/Map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index 807b6d7..f159e84 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -114,7 +114,7 @@ public: // Access & Modifiers
     }
 
 public:
-    IteratorType find(const KeyType &key) {
+    IteratorType find(const KeyType &key) const {
         return mDStruct_d.find(KeyValueType { key, ValueType() });
     }
 
-- 
2.43.0


From 80c40353119bf779801119fad0b4d1c13bb48a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 28/45] fix: uniting a DisjointSet root with itself does not
 make a cycle

---
 core/ds/set/DisjointSet.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 59bc539..ee82560 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -72,6 +72,7 @@ public:
     }
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
+        if (root1 == root2) return; // already in the same set
         if (root1 < root2) {
             mArray_d[root2] = root1;
         } else {
-- 
2.43.0


From 0e2302af99bc4efae795bf9d7e059b8a6696c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 29/45] fix: DisjointSet unites by rank, so that its trees stay
 shallow

---
 core/ds/set/DisjointSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index ee82560..5cc5578 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -73,8 +73,8 @@ public:
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
         if (root1 == root2) return; // already in the same set
-        if (root1 < root2) {
-            mArray_d[root2] = root1;
+        if (mArray_d[root2] < mArray_d[root1]) { // ranks are negative: root2's tree is deeper
+            mArray_d[root1] = root2;
         } else {
             if (mArray_d[root1] == mArray_d[root2])
                 mArray_d[root1]--;
-- 
2.43.0


From f80c1206b56c26fb6181baa87d71120e69d22e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 30/45] fix: a BasicString made of an empty C string does not
 read past its end

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0fcf118..cfca4f9 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -38,6 +38,7 @@ public:
     }
 
     BasicString(const char *str) : BasicString() {
+        if (*str == '\0') return;
         mCharList_d[-1] = *str;
         while (*(++str) != '\0') {
             mCharList_d.push_back(*str);
-- 
2.43.0


From 83224c0843ffdda216371b2e8f4845e625baaf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 31/45] fix: appending a BasicString to itself ends

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index cfca4f9..3579a2e 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -118,6 +118,7 @@ public:
     }
 
     BasicString & operator+=(const BasicString &str) {
+        if (this == &str) return *this += BasicString(str);
         if (mCharList_d.capacity() < mCharList_d.size() + str.mCharList_d.size() - 1)
             mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);
         mCharList_d[-1] = str[0];
-- 
2.43.0


From 873a4250e86e16c533f69b3324f223d2427e6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 32/45] fix: a moved-from BasicString is empty

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 3579a2e..47927e5 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -34,6 +34,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(BasicString) {
         mCharList_d = dstruct::move(ds.mCharList_d);
+        ds.clear(); // keep the terminator
         return *this;
     }
 
-- 
2.43.0


From 3440824ffb41f48d8a87aee3dfb7c59fa28c802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 33/45] fix: StaticMemAllocator refuses sizes that are not
 positive or larger than its pool

---
 memory/StaticMemAllocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index de42480..3056c35 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,6 +156,8 @@ protected:
 
     void * allocate_d(int bytes) {
 
+        if (bytes <= 0 || bytes > MEMORY_SIZE) return nullptr;
+
         MemBlock_e targetMemBlockIndex;
 
         if (bytes > MAX_BLOCK_SIZE) {
-- 
2.43.0


From 4c4080a4198cad7be996c1d32a0455790c1dffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 34/45] fix: StaticMemAllocator::memory_merge joins all
 adjacent free blocks

---
 memory/StaticMemAllocator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 3056c35..1ebb5a4 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -234,17 +234,18 @@ protected: // quick allocator
                     insert_mem_block_to_list_d(firstMemBlockPtr, INDEX_TO_SIZE_(listIndex));
                 } else {
                     bool secondMemBlockFlag = false;
-                    for (int j = i + 1; j < mFreeMemList_d.size() - 1 && !secondMemBlockFlag; j++) {
+                    for (int j = i + 1; j < mFreeMemList_d.size() && !secondMemBlockFlag; j++) {
                         auto secondMemLinkPtr = &(mFreeMemList_d[j]);
                         secondMemBlockPtr = secondMemLinkPtr->next;
                         while (secondMemBlockPtr != nullptr) {
+                            int secondMemBlockSize = j < mFreeMemList_d.size() - 1 ? INDEX_TO_SIZE_(j) : MemBlock_e::to_node(secondMemBlockPtr)->data;
                             /*                         +-----+ 
                               xUp                -->   |     |
                               firstMemBlockPtr   -->   |     |
                               xDown              -->   |     |
                                                        +-----+
                             */
-                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - (j + 1) * SMA_MEM_ALIGN;
+                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - secondMemBlockSize;
                             void *addrDown = reinterpret_cast<char *>(firstMemBlockPtr) + (i + 1) * SMA_MEM_ALIGN;
 
                             if (SMA_ADDRESS_EQUAL(addrUP, secondMemBlockPtr) || SMA_ADDRESS_EQUAL(addrDown, secondMemBlockPtr)) { // check merge-able
@@ -252,13 +253,13 @@ protected: // quick allocator
                                 secondMemLinkPtr->next = secondMemBlockPtr->next; // delete secondMemBlock from list[j]
                                 insert_mem_block_to_list_d(
                                     firstMemBlockPtr < secondMemBlockPtr ? firstMemBlockPtr : secondMemBlockPtr,
-                                    INDEX_TO_SIZE_(i + j + 1)
+                                    INDEX_TO_SIZE_(i) + secondMemBlockSize
                                 );
                                 secondMemBlockFlag = true;
                                 break;
                             }
 
-                            if (firstMemBlockPtr > secondMemBlockPtr) break;
+                            if (firstMemBlockPtr < secondMemBlockPtr) break;
 
                             secondMemLinkPtr = secondMemBlockPtr;
                             secondMemBlockPtr = secondMemLinkPtr->next;
-- 
2.43.0


From 67ba9817a5118542c5eac315b2080cd934ccc8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 35/45] fix: TreeNode::data_to_link accounts for padding before
 over-aligned data

---
 core/ds/tree/tree-base.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/tree-base.hpp b/core/ds/tree/tree-base.hpp
index 4850ef1..971e5b3 100644
--- a/core/ds/tree/tree-base.hpp
+++ b/core/ds/tree/tree-base.hpp
@@ -34,8 +34,9 @@ struct TreeNode {
     }
 
     static Link * data_to_link(const T *data) {
-        // TODO: (void *) verify/test
-        return reinterpret_cast<Link *>((int8_t *)(data) - sizeof(Link));
+        // data is placed behind link at the next address aligned for T
+        constexpr auto dataOffset = (sizeof(Link) + alignof(T) - 1) / alignof(T) * alignof(T);
+        return reinterpret_cast<Link *>((char *)(data) - dataOffset);
     }
 };
 
-- 
2.43.0


From 096e65aaa601ee3892ec8a1fbef6d721fc83bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 36/45] fix: Vector::resize(n, x) stops at once when it gets no
 memory

---
 core/ds/array/Vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index a2500be..c6bdccb 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -192,6 +192,7 @@ public:
         // alloc
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
+        DSTRUCT_CRASH(mC_d == nullptr); // mC_d + i is not nullptr when i > 0
 
         // set (before release, element may be in the old memory)
         for (int i = mSize_d; i < n; i++) {
-- 
2.43.0


From bc3659117369c2e47fd280f6e44c63ec5effc996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 37/45] fix: ENABLE_SMA_LOG compiles (__VA_ARGS__ was misspelt)

---
 port/static-memory/sma-dstruct-port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/port/static-memory/sma-dstruct-port.hpp b/port/static-memory/sma-dstruct-port.hpp
index 735f9ab..d1c0318 100644
--- a/port/static-memory/sma-dstruct-port.hpp
+++ b/port/static-memory/sma-dstruct-port.hpp
@@ -16,7 +16,7 @@
 #ifdef ENABLE_SMA_LOG
 #include <cstdio>
 #undef SMA_LOGD
-#define SMA_LOGD(...) printf(__VAARGS__); printf("\n")
+#define SMA_LOGD(...) printf(__VA_ARGS__); printf("\n")
 #endif
 
 #include <memory/StaticMemAllocator.hpp>
-- 
2.43.0


From 35ce8394b0d705ecd2c38921419eef92f84216c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 38/45] fix: Vector asks for no more bytes than an int can
 count, instead of a truncated number

---
 core/ds/array/Vector.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c6bdccb..004a763 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -164,7 +164,7 @@ public:
         if (n == 0)
             mC_d = nullptr;
         else
-            mC_d = Vector::Alloc_::allocate(n);
+            mC_d = _allocate(n);
 
         if (oldC) {
             DSTRUCT_ASSERT(mCapacity_d != 0);
@@ -191,7 +191,7 @@ public:
 
         // alloc
         PointerType oldC = mC_d;
-        mC_d = Vector::Alloc_::allocate(n);
+        mC_d = _allocate(n);
         DSTRUCT_CRASH(mC_d == nullptr); // mC_d + i is not nullptr when i > 0
 
         // set (before release, element may be in the old memory)
@@ -212,6 +212,12 @@ public:
         mCapacity_d = mSize_d = n;
     }
 
+protected:
+    // Alloc counts bytes in a int: it can't supply more
+    static PointerType _allocate(size_t n) {
+        return n > 0x7fffffff / sizeof(T) ? nullptr : Vector::Alloc_::allocate(n);
+    }
+
 protected: // data member
     SizeType mSize_d, mCapacity_d;
     PointerType mC_d;
-- 
2.43.0


From 88c4495cf9b94e90c0c2e7c544bb65aee59cd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 39/45] fix: StaticMemAllocator does not include <cstdio>, so
 that a port needs no standard library

---
 memory/StaticMemAllocator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1ebb5a4..1fafc0e 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -10,7 +10,6 @@
 #ifndef STATIC_MEM_ALLOCATOR_HPP_DSTRUCT
 #define STATIC_MEM_ALLOCATOR_HPP_DSTRUCT
 
-#include <cstdio>
 // only use no-dependency and static data-structures
 #include <core/ds/array/Array.hpp>
 #include <core/ds/linked-list/EmbeddedList.hpp>
-- 
2.43.0


From 865a17e14ff22e3c9547dc49f53ca628fca5ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 40/45] fix: construct elements with the global placement new,
 whatever operator new their class has

---
 core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/common.hpp b/core/common.hpp
index defd3b3..30d32d6 100644
--- a/core/common.hpp
+++ b/core/common.hpp
@@ -54,7 +54,7 @@ template <typename T>
 static T* construct(void *addr, const T& obj) noexcept {
     static DStructPlacementNewFlag placementNewFlag;
     DSTRUCT_CRASH(addr == nullptr);
-    return new(addr, &placementNewFlag) T(obj); // use T's constructor(copy/spec)
+    return ::new(addr, &placementNewFlag) T(obj); // use T's constructor(copy/spec)
 }
 
 /*
-- 
2.43.0


From b05b326de7e4e217a74a2cbbc2b9e6b4f9e62e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 41/45] fix: copy tree and map elements with parentheses, so
 that list constructors are not chosen

---
 core/ds/Map.hpp            | 2 +-
 core/ds/tree/AVLTree.hpp   | 2 +-
 core/ds/tree/tree-base.hpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index f159e84..5b75487 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -23,7 +23,7 @@ struct KeyValue {
     KeyValue() : key(), value() { }
 
     KeyValue(const KeyType &_key, const ValueType &_value) :
-        key { _key }, value { _value } { }
+        key(_key), value(_value) { }
 };
 
 // KeyValue
diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index f52dfce..5191c92 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -22,7 +22,7 @@ struct AVLData_ {
 
     AVLData_() : height { 0 }, val { } { }
 
-    AVLData_(const T &_val) : height { 0 }, val { _val } { }
+    AVLData_(const T &_val) : height { 0 }, val(_val) { }
 
 };
 
diff --git a/core/ds/tree/tree-base.hpp b/core/ds/tree/tree-base.hpp
index 971e5b3..f516e64 100644
--- a/core/ds/tree/tree-base.hpp
+++ b/core/ds/tree/tree-base.hpp
@@ -22,8 +22,8 @@ struct TreeNode {
     using LinkType = Link;
     // big five
     TreeNode() : link {} { }
-    TreeNode(const T &_data) : link {}, data { _data } { }
-    TreeNode(const TreeNode &tNode) : data { tNode.data } { link = tNode.link; }
+    TreeNode(const T &_data) : link {}, data(_data) { }
+    TreeNode(const TreeNode &tNode) : data(tNode.data) { link = tNode.link; }
 
     static TreeNode * to_node(Link *link) {
         return reinterpret_cast<TreeNode *>(link);
-- 
2.43.0


From 36b5f5e2b9dfc85ae59c68840562df7bb122db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:10 +0000
Subject: [PATCH 42/45] fix: qualify distance in Heap (ambiguous with
 std::distance for standard element types)

---
 core/ds/Heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/Heap.hpp b/core/ds/Heap.hpp
index f369db5..048ca85 100644
--- a/core/ds/Heap.hpp
+++ b/core/ds/Heap.hpp
@@ -30,7 +30,7 @@ public:
 
     Heap(const IteratorType &begin, const IteratorType &end) : Heap() {
 
-        mHeap_d.resize(distance(begin, end) + 1);
+        mHeap_d.resize(dstruct::distance(begin, end) + 1);
 
         for (auto it = begin; it != end; it++) {
             mHeap_d.push_back(*it);
-- 
2.43.0


From bab2905bfe2e24b56fc48baf5490f09d5f1e2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:14 +0000
Subject: [PATCH 43/45] fix: XValueStack decides by the order on pop as it does
 on push, not by ==

---
 core/ds/stack/XValueStack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 2d8d94c..714aaa0 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -60,7 +60,7 @@ public:
 
     void pop() {
         T data = mStack_d.top(); mStack_d.pop();
-        if (mXValue_d == data) {
+        if (!mCmp_d(mXValue_d, data)) { // same decision as push
             mXValue_d = mStack_d.top(); mStack_d.pop();
         }
         // return dstruct::move(data);
-- 
2.43.0


From ac2f1d1675da7762e31a562442b04fba01cbcb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:17 +0000
Subject: [PATCH 44/45] fix: initialise the extreme value of a new XValueStack

---
 core/ds/stack/XValueStack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 714aaa0..86ed350 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -75,7 +75,7 @@ public:
     ConstIteratorType end() const { return mStack_d.end(); }
 
 protected:
-    T mXValue_d;
+    T mXValue_d { };
     Compare mCmp_d;
     StackType mStack_d;
 };
-- 
2.43.0


From f10dbf71cf086f20a4e8c26e144289ca9562a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:19 +0000
Subject: [PATCH 45/45] fix: a min/max stack that was moved from keeps its
 order

XValueStack moved the comparison object away although the emptied stack
still uses it; the other containers copy it.
---
 core/ds/stack/XValueStack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 86ed350..c59008c 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -36,7 +36,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(XValueStack) {
         mXValue_d = dstruct::move(ds.mXValue_d);
-        mCmp_d =  dstruct::move(ds.mCmp_d);
+        mCmp_d = ds.mCmp_d; // ds still needs its order
         mStack_d =  dstruct::move(ds.mStack_d);
         return *this;
     }
-- 
2.43.0

