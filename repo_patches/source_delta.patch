From 7a4703551e2837670080d8b54479c5ad4e670786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:00 +0000
Subject: [PATCH 01/49] fix: trace live values into the idle semispace

Survivors were copied into the space that was still in use for allocation, so
a heap with more than 25% of live data overflowed it (null dereference), and
array elements were traced recursively without marking, so a cyclic array
recursed for ever.  Move each value exactly once into the idle space, leaving
its new location behind, and scan the moved values iteratively.
---
 source/lib_vm/vm_gc.cpp | 120 ++++++++++++++++------------------------
 source/lib_vm/vm_gc.h   |  33 ++++-------
 2 files changed, 60 insertions(+), 93 deletions(-)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index f40f2e4..8cd54f4 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -109,89 +109,67 @@ value_t *value_gc_t::copy(const value_t &a) {
   }
 }
 
+// return the number of bytes that follow the value header
+static size_t payload_size(const value_t &v) {
+  switch (v.type()) {
+  case val_type_string:
+    return v.strlen() + 1;
+  case val_type_array:
+    return v.array_size() * sizeof(value_t *);
+  default:
+    return 0;
+  }
+}
+
 void value_gc_t::collect() {
-  swap();
+  // everything left behind is garbage
   space_to().clear();
-  forward_clear();
+  // continue with the survivors
+  swap();
+}
+
+value_t *value_gc_t::move_(value_t *v) {
+  // area data should be moved to
+  arena_t &to = space_from();
+  // none has no storage and values reached earlier were already moved
+  if (v == nullptr || to.owns(v)) {
+    return v;
+  }
+  assert(space_to().owns(v));
+  // a moved value leaves its new location behind
+  if (v->type_ == val_type_unknown) {
+    return to.at(v->v);
+  }
+  const size_t extra = payload_size(*v);
+  // note: this always fits since each value is only moved once
+  value_t *n = to.alloc<value_t>(extra);
+  assert(n);
+  memcpy((void *)n, (const void *)v, sizeof(value_t) + extra);
+  v->type_ = val_type_unknown;
+  v->v = int32_t(to.offset(n));
+  return n;
 }
 
 void value_gc_t::trace(value_t **list, size_t num) {
 
   // area data should be moved to
-  arena_t &to = space_to();
+  arena_t &to = space_from();
+  size_t scan = to.size();
 
   for (size_t i = 0; i < num; ++i) {
-    value_t *&v = list[i];
+    list[i] = move_(list[i]);
+  }
 
-    // a value may be new yet contain referenced to old data therefore we must
-    // visit these nodes regardless
-    switch (v->type()) {
-    case val_type_array:
-      // collect child elements
+  // visit the children of all values that have been moved
+  while (scan < to.size()) {
+    value_t *v = to.at(scan);
+    scan += sizeof(value_t) + payload_size(*v);
+    if (v->is_a<val_type_array>()) {
+      value_t **data = v->array();
       const int32_t size = v->array_size();
-      trace(v->array(), size);
-    }
-
-    // already collected so skip to avoid cyclic trace loops
-    if (to.owns(v)) {
-      continue;
-    }
-    assert(v == nullptr || space_from().owns(v));
-
-    switch (v->type()) {
-    case val_type_none: {
-      assert(list[i] == nullptr);
-      break;
-    }
-    case val_type_syscall:
-    case val_type_func:
-    case val_type_int: {
-      value_t *n = to.alloc<value_t>(0);
-      n->type_ = v->type();
-      n->v = v->v;
-      list[i] = n;
-      break;
-    }
-    case val_type_float: {
-      value_t *n = to.alloc<value_t>(0);
-      n->type_ = v->type();
-      n->f = v->f;
-      list[i] = n;
-      break;
-    }
-    case val_type_string: {
-      assert(int32_t(strlen(v->string())) == v->v);
-      const int32_t size = v->v;
-      value_t *n = to.alloc<value_t>(size + 1);
-      n->type_ = v->type();
-      n->v = size;
-      memcpy(n->string(), v->string(), size + 1);
-      list[i] = n;
-      break;
-    }
-    case val_type_array: {
-      // if we have global variables, they might have been relocated at which
-      // point our pointers will point to the wrong half space
-      if (value_t *x = forward_find(v)) {
-        list[i] = x;
-        break;
+      for (int32_t i = 0; i < size; ++i) {
+        data[i] = move_(data[i]);
       }
-
-      // may want to swap in the new pointer prior to trace to break cycles
-
-      const int32_t size = v->array_size();
-      // move into to space
-      value_t *n = to.alloc<value_t>(size * sizeof(value_t *));
-      n->type_ = v->type();
-      n->v = size;
-      memcpy(n->array(), v->array(), size * sizeof(value_t *));
-      // keep track of forwarded global arrays that may have to move
-      forward_add(v, n);
-      list[i] = n;
-      break;
-    }
-    default:
-      assert(!"unknown type");
     }
   }
 }
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 0af2924..d222643 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -4,8 +4,6 @@
 #include <set>
 #include <vector>
 #include <array>
-#include <unordered_map>
-#include <unordered_set>
 
 #include "value.h"
 
@@ -53,6 +51,15 @@ struct arena_t {
     return v >= start_ && v < end_;
   }
 
+  // convert between offsets and addresses
+  value_t *at(size_t offset) {
+    return (value_t *)(data_.data() + offset);
+  }
+
+  size_t offset(const value_t *v) const {
+    return (const uint8_t *)v - data_.data();
+  }
+
 protected:
   size_t head_;
   std::array<uint8_t, 1024 * 1024> data_;
@@ -98,7 +105,6 @@ struct value_gc_t {
   void reset() {
     space_from().clear();
     space_to().clear();
-    forward_.clear();
     flipflop_ = 0;
   }
 
@@ -124,25 +130,8 @@ protected:
     flipflop_ ^= 1;
   }
 
-  void forward_clear() {
-    forward_.clear();
-  }
-
-  void forward_add(const value_t *key, value_t *val) {
-    assert(forward_.count(key) == 0);
-    forward_[key] = val;
-  }
-
-  value_t *forward_find(const value_t *v) {
-    auto itt = forward_.find(v);
-    return itt == forward_.end() ? nullptr : itt->second;
-  }
-
-  // since getv puts an array on the stack and then geta/seta to set its member
-  // we have to keep a list of already moved arrays.  this could be avoided if
-  // we used different instructions to avoid using getv, and instead looked it
-  // up when we need.
-  std::unordered_map<const value_t *, value_t *> forward_;
+  // move a value into the idle space and return its new location
+  value_t *move_(value_t *v);
 
   uint32_t flipflop_;
   std::array<arena_t, 2> space_;
-- 
2.43.0


From 26d664a080c84fffa982595897d400245ddfe09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 02/49] fix: wait() with a negative count no longer suspends a
 thread for ever

---
 source/lib_builtins/builtin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index edb7a83..b1b758a 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -216,7 +216,8 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-    t.waits = w;
+    // a negative wait would never count down to zero
+    t.waits = (w > 0) ? w : 0;
     t.get_stack().push_int(0);
     if (t.waits > 0) {
       t.halt();
-- 
2.43.0


From a87c23d89dd7063eb4277f8b4a6d3e4da1ff530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 03/49] fix: pass arrays by reference when starting a thread

new_thread() with an array argument aborted in value_gc_t::copy.
---
 source/lib_vm/thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 6208816..8992ecf 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -713,7 +713,9 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   // push any arguments
   for (int i = 0; i < argc; ++i) {
     const value_t *v = argv[i];
-    stack_.push(gc_.copy(*v));
+    // arrays are reference types so must not be copied
+    stack_.push(v->is_a<val_type_array>() ? const_cast<value_t *>(v) :
+                                            gc_.copy(*v));
   }
 
   // push the initial frame
-- 
2.43.0


From 4f8a50c8af905f88ce68454316cb67e6494898fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 04/49] fix: call_once reports a failure to prepare the thread

Calling with the wrong number of arguments dereferenced a null thread.
---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cc70142..1d7d8e8 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -62,6 +62,11 @@ bool vm_t::call_once(const function_t &func,
   return_code = nullptr;
 
   thread_t *thread = new_thread(func, argc, argv);
+  if (!thread) {
+    error = (func.num_args() != argc) ? thread_error_t::e_bad_num_args :
+                                        thread_error_t::e_bad_prepare;
+    return false;
+  }
   gc_collect();
   while (!thread->finished() && !thread->has_error()) {
     if (!thread->resume(128 * 1024)) {
-- 
2.43.0


From 85f0e4e76f1301b92cbdbceb0948eb6781b419e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 05/49] fix: vm_t::has_error reports threads that raised an
 error

---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 1d7d8e8..4b7a0bc 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -122,6 +122,11 @@ bool vm_t::resume(uint32_t cycles) {
 }
 
 bool vm_t::has_error() const {
+  for (const auto &t : threads_) {
+    if (t->has_error()) {
+      return true;
+    }
+  }
   return false;
 }
 
-- 
2.43.0


From 2e65bb71f2e43e77d2d404cba9ef8e752bbcc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 06/49] fix: vm_t::reset drops the globals along with the heap
 they live in

---
 source/lib_vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 4b7a0bc..bbb8cf8 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -38,6 +38,8 @@ void vm_t::reset() {
     delete t;
   }
   threads_.clear();
+  // the globals refer to values that no longer exist
+  g_.clear();
 }
 
 bool vm_t::call_init() {
-- 
2.43.0


From 22cb9086c5cb2e49657c0097aa38636f99d4b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 07/49] fix: collect garbage while stepping source lines

A thread driven only by step_line exhausted the heap.
---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 8992ecf..b71a150 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -843,6 +843,7 @@ bool thread_t::step_line() {
   const line_t line = get_source_line();
   // step until the source line changes
   do {
+    tick_gc_(1);
     step_imp_();
     if (finished_) {
       break;
-- 
2.43.0


From 9b74c5867a56c03b215c09addbdc17cbc9136845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 08/49] fix: call_init runs the init function to completion

It returned success after the first 8192 cycles with globals still unset.
---
 source/lib_vm/vm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index bbb8cf8..6fd5b12 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -51,7 +51,13 @@ bool vm_t::call_init() {
   if (!t) {
     return false;
   }
-  return resume(1024 * 8);
+  // init must be complete before any other code is executed
+  while (!t->finished()) {
+    if (!t->resume(1024 * 8)) {
+      return false;
+    }
+  }
+  return true;
 }
 
 bool vm_t::call_once(const function_t &func,
-- 
2.43.0


From d54ab3bb023748a2c47333e04d0d432993c77b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 09/49] fix: get_thread_error knows all error codes

---
 source/lib_vm/thread_error.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 267c93c..5c578c0 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -8,6 +8,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   switch (err) {
   case thread_error_t::e_success:             return "e_success";
   case thread_error_t::e_max_cycle_count:     return "e_max_cycle_count";
+  case thread_error_t::e_bad_prepare:         return "e_bad_prepare";
   case thread_error_t::e_bad_getv:            return "e_bad_getv";
   case thread_error_t::e_bad_setv:            return "e_bad_setv";
   case thread_error_t::e_bad_num_args:        return "e_bad_num_args";
@@ -21,6 +22,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_stack_underflow:     return "e_stack_underflow";
   case thread_error_t::e_bad_globals_size:    return "e_bad_globals_size";
   case thread_error_t::e_bad_array_bounds:    return "e_bad_array_bounds";
+  case thread_error_t::e_bad_array_object:    return "e_bad_array_object";
   case thread_error_t::e_bad_type_operation:  return "e_bad_type_operation";
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
-- 
2.43.0


From d495ce129dc0e38f1b07d6fe0a4001c284eb7758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 10/49] fix: exhausting the script heap is a thread error

An allocation that did not fit hit an assert (or a null dereference with
asserts disabled) and took the host process down.  Report it as an error of
the thread that asked for it.
---
 source/lib_builtins/builtin.cpp |  6 ++++-
 source/lib_vm/thread.cpp        | 25 +++++++++++++++++-
 source/lib_vm/thread_error.cpp  |  1 +
 source/lib_vm/thread_error.h    |  1 +
 source/lib_vm/value.cpp         |  6 +++--
 source/lib_vm/vm_gc.cpp         | 45 +++++++++++++++++++++++----------
 source/lib_vm/vm_gc.h           | 20 ++++++++++++++-
 7 files changed, 85 insertions(+), 19 deletions(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index b1b758a..a419208 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -206,7 +206,11 @@ static void builtin_new_thread(struct nano::thread_t &t, int32_t nargs) {
     t.raise_error(thread_error_t::e_bad_argument);
     return;
   }
-  vm.new_thread(*func, int32_t(args.size()), args.data());
+  if (!vm.new_thread(*func, int32_t(args.size()), args.data())) {
+    // the arguments have been checked so only their copies can have failed
+    t.raise_error(thread_error_t::e_out_of_memory);
+    return;
+  }
   t.get_stack().push_int(0);
   return;
 }
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index b71a150..1233c8e 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -114,6 +114,9 @@ void thread_t::do_INS_ADD_() {
     int32_t rsize = int32_t(strlen(rbuf));
     const int32_t len = l->strlen() + rsize;
     value_t *s = gc_.new_string(len);
+    if (!s) {
+      return;
+    }
     char *dst = s->string();
     memcpy(dst, l->string(), l->strlen());
     memcpy(dst + l->strlen(), rbuf, rsize);
@@ -127,6 +130,9 @@ void thread_t::do_INS_ADD_() {
     int32_t lsize = int32_t(strlen(lbuf));
     const int32_t len = lsize + r->strlen();
     value_t *s = gc_.new_string(len);
+    if (!s) {
+      return;
+    }
     char *dst = s->string();
     memcpy(dst, lbuf, lsize);
     memcpy(dst + lsize, r->string(), r->strlen());
@@ -615,7 +621,11 @@ void thread_t::do_INS_SETA_() {
     a->array()[index] = v;
   }
   else {
-    a->array()[index] = gc_.copy(*v);
+    value_t *n = gc_.copy(*v);
+    // keep the old element if we ran out of memory
+    if (n || !v) {
+      a->array()[index] = n;
+    }
   }
 }
 
@@ -675,6 +685,9 @@ void thread_t::do_INS_ARY_INIT_() {
   const int32_t operand = read_operand_();
   assert(operand > 0);
   value_t *array = gc_.new_array(operand);
+  if (!array) {
+    return;
+  }
   value_t **data = array->array();
   for (int i = operand - 1; i >= 0; --i) {
     value_t *obj = stack_.pop();
@@ -718,6 +731,12 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
                                             gc_.copy(*v));
   }
 
+  // the arguments may not have fit in the heap
+  if (gc_.take_exhausted()) {
+    error_ = thread_error_t::e_out_of_memory;
+    return false;
+  }
+
   // push the initial frame
   enter_(stack_.head(), pc_, func.code_start_);
   frame_().terminal_ = true;
@@ -780,6 +799,10 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+  // the result of this instruction may not have fit in the heap
+  if (gc_.take_exhausted()) {
+    set_error_(thread_error_t::e_out_of_memory);
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 5c578c0..f3e5114 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -27,6 +27,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
   case thread_error_t::e_bad_member_access:   return "e_bad_member_access";
+  case thread_error_t::e_out_of_memory:       return "e_out_of_memory";
   default:
     assert(false);
     return "";
diff --git a/source/lib_vm/thread_error.h b/source/lib_vm/thread_error.h
index e2ace28..391fdff 100644
--- a/source/lib_vm/thread_error.h
+++ b/source/lib_vm/thread_error.h
@@ -26,6 +26,7 @@ enum class thread_error_t {
   e_bad_type_operation,
   e_bad_argument,
   e_bad_member_access,
+  e_out_of_memory,
 };
 
 const char *get_thread_error(const nano::thread_error_t &err);
diff --git a/source/lib_vm/value.cpp b/source/lib_vm/value.cpp
index 70b2cb2..96916a5 100644
--- a/source/lib_vm/value.cpp
+++ b/source/lib_vm/value.cpp
@@ -34,8 +34,10 @@ void value_stack_t::push_float(const float v) {
 void value_stack_t::push_string(const std::string &v) {
   const int32_t len = int32_t(v.size());
   value_t *s = gc_.new_string(len);
-  memcpy(s->string(), v.data(), len);
-  s->string()[len] = '\0';
+  if (s) {
+    memcpy(s->string(), v.data(), len);
+    s->string()[len] = '\0';
+  }
   push(s);
 }
 
diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index 8cd54f4..7609c89 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -7,16 +7,20 @@
 namespace nano {
 
 value_t *value_gc_t::new_int(const int32_t value) {
-  value_t *v = space_to().alloc<value_t>(0);
-  assert(v);
+  value_t *v = alloc_(0);
+  if (!v) {
+    return nullptr;
+  }
   v->type_ = val_type_int;
   v->v = value;
   return v;
 }
 
 value_t *value_gc_t::new_float(const float value) {
-  value_t *v = space_to().alloc<value_t>(0);
-  assert(v);
+  value_t *v = alloc_(0);
+  if (!v) {
+    return nullptr;
+  }
   v->type_ = val_type_float;
   v->f = value;
   return v;
@@ -24,8 +28,10 @@ value_t *value_gc_t::new_float(const float value) {
 
 value_t *value_gc_t::new_array(int32_t value) {
   size_t size = value * sizeof(value_t *);
-  value_t *v = space_to().alloc<value_t>(size);
-  assert(v);
+  value_t *v = alloc_(size);
+  if (!v) {
+    return nullptr;
+  }
   v->type_ = val_type_array;
   assert(value > 0);
   memset(v->array(), 0, size);
@@ -35,8 +41,10 @@ value_t *value_gc_t::new_array(int32_t value) {
 
 value_t *value_gc_t::new_string(const std::string &value) {
   const int32_t size = int32_t(value.size());
-  value_t *v = space_to().alloc<value_t>(value.size() + 1);
-  assert(v);
+  value_t *v = alloc_(value.size() + 1);
+  if (!v) {
+    return nullptr;
+  }
   v->type_ = val_type_string;
   v->v = size;
   // copy string
@@ -47,8 +55,10 @@ value_t *value_gc_t::new_string(const std::string &value) {
 }
 
 value_t *value_gc_t::new_string(int32_t len) {
-  value_t *v = space_to().alloc<value_t>(len + 1);
-  assert(v);
+  value_t *v = alloc_(len + 1);
+  if (!v) {
+    return nullptr;
+  }
   v->type_ = val_type_string;
   v->v = len;
   v->string()[0] = '\0';
@@ -60,16 +70,20 @@ value_t *value_gc_t::new_none() {
 }
 
 value_t *value_gc_t::new_func(uint32_t offset) {
-  value_t *v = space_to().alloc<value_t>(0);
-  assert(v);
+  value_t *v = alloc_(0);
+  if (!v) {
+    return nullptr;
+  }
   v->type_ = val_type_func;
   v->v = offset;
   return v;
 }
 
 value_t *value_gc_t::new_syscall(uint32_t index) {
-  value_t *v = space_to().alloc<value_t>(0);
-  assert(v);
+  value_t *v = alloc_(0);
+  if (!v) {
+    return nullptr;
+  }
   v->type_ = val_type_syscall;
   v->v = index;
   return v;
@@ -93,6 +107,9 @@ value_t *value_gc_t::copy(const value_t &a) {
     return new_float(a.f);
   case val_type_string: {
     value_t *v = new_string(a.strlen());
+    if (!v) {
+      return nullptr;
+    }
     memcpy(v->string(), a.string(), a.strlen());
     v->string()[a.strlen()] = 0;
     return v;
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index d222643..31557f5 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -97,14 +97,24 @@ struct value_gc_t {
   void trace(value_t **input, size_t count);
 
   value_gc_t()
-    : flipflop_(0)
+    : exhausted_(false)
+    , flipflop_(0)
   {}
 
   bool should_collect() const;
 
+  // return true if an allocation failed since the last time this was called
+  // note: the new_* functions and copy() return nullptr when they fail
+  bool take_exhausted() {
+    const bool out = exhausted_;
+    exhausted_ = false;
+    return out;
+  }
+
   void reset() {
     space_from().clear();
     space_to().clear();
+    exhausted_ = false;
     flipflop_ = 0;
   }
 
@@ -130,9 +140,17 @@ protected:
     flipflop_ ^= 1;
   }
 
+  // allocate a value, taking note if we ran out of space
+  value_t *alloc_(size_t extra) {
+    value_t *v = space_to().alloc<value_t>(extra);
+    exhausted_ |= (v == nullptr);
+    return v;
+  }
+
   // move a value into the idle space and return its new location
   value_t *move_(value_t *v);
 
+  bool exhausted_;
   uint32_t flipflop_;
   std::array<arena_t, 2> space_;
 };
-- 
2.43.0


From 8ecb37768dea05354f2c5852f91b3567c0de0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 11/49] fix: string concatenation keeps the whole operand

Operands were converted through a 16 byte buffer, so everything after the 15th
character was lost, and concatenating an array or syscall aborted.
---
 source/lib_vm/thread.cpp | 51 ++++++++--------------------------------
 1 file changed, 10 insertions(+), 41 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 1233c8e..e3ea61a 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -32,25 +32,19 @@ namespace nano {
 
 namespace {
 
-bool to_string(char *buf, size_t size, const value_t *val) {
+bool to_string(std::string &out, const value_t *val) {
   switch (val->type()) {
   case val_type_float:
-    snprintf(buf, size, "%f", val->f);
-    return true;
   case val_type_int:
-    snprintf(buf, size, "%i", val->integer());
-    return true;
-  case val_type_string:
-    snprintf(buf, size, "%s", val->string());
-    return true;
   case val_type_none:
-    snprintf(buf, size, "none");
-    return true;
   case val_type_func:
-    snprintf(buf, size, "function@%d", val->v);
+    out = val->to_string();
+    return true;
+  case val_type_string:
+    out.assign(val->string(), val->strlen());
     return true;
   default:
-    assert(false);
+    // there is no string form for this type
     return false;
   }
 }
@@ -108,37 +102,12 @@ void thread_t::do_INS_ADD_() {
     stack_.push_float(l->as_float() + r->as_float());
     return;
   }
-  if (l->is_a<val_type_string>()) {
-    char rbuf[16] = {0};
-    to_string(rbuf, sizeof(rbuf), r);
-    int32_t rsize = int32_t(strlen(rbuf));
-    const int32_t len = l->strlen() + rsize;
-    value_t *s = gc_.new_string(len);
-    if (!s) {
+  if (l->is_a<val_type_string>() || r->is_a<val_type_string>()) {
+    std::string lstr, rstr;
+    if (to_string(lstr, l) && to_string(rstr, r)) {
+      stack_.push_string(lstr + rstr);
       return;
     }
-    char *dst = s->string();
-    memcpy(dst, l->string(), l->strlen());
-    memcpy(dst + l->strlen(), rbuf, rsize);
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
-  }
-  if (r->is_a<val_type_string>()) {
-    char lbuf[16] = {0};
-    to_string(lbuf, sizeof(lbuf), l);
-    int32_t lsize = int32_t(strlen(lbuf));
-    const int32_t len = lsize + r->strlen();
-    value_t *s = gc_.new_string(len);
-    if (!s) {
-      return;
-    }
-    char *dst = s->string();
-    memcpy(dst, lbuf, lsize);
-    memcpy(dst + lsize, r->string(), r->strlen());
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
   }
   // try a user handler
   if (vm_.handlers.on_add) {
-- 
2.43.0


From f3e6b34428feff929d556a525318979f5b7614f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 12/49] fix: bad indirect calls are thread errors

Calling none, or a syscall value with the wrong number of arguments, aborted
the host.
---
 source/lib_vm/thread.cpp | 6 +++++-
 source/lib_vm/value.h    | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index e3ea61a..435af0f 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -403,10 +403,14 @@ void thread_t::do_INS_SCALL_() {
 void thread_t::do_INS_ICALL_() {
   const int32_t num_args = read_operand_();
   value_t *callee = stack_.pop();
-  assert(callee);
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
+    const int32_t expect = stack_.head() - num_args + 1;
     do_syscall_(operand, num_args);
+    // a syscall should replace its arguments with one result
+    if (!has_error() && stack_.head() != expect) {
+      set_error_(thread_error_t::e_bad_num_args);
+    }
     return;
   }
   if (callee->is_a<val_type_func>()) {
diff --git a/source/lib_vm/value.h b/source/lib_vm/value.h
index cb98d08..082ced6 100644
--- a/source/lib_vm/value.h
+++ b/source/lib_vm/value.h
@@ -205,7 +205,10 @@ struct value_stack_t {
 
   // pop from the value stack
   value_t* pop() {
-    assert(!stack_.empty());
+    if (stack_.empty()) {
+      set_error(thread_error_t::e_stack_underflow);
+      return nullptr;
+    }
     value_t *out = stack_.back();
     stack_.pop_back();
     return out;
-- 
2.43.0


From 49a774c361315329bd82213e787cfa0c71aca9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 13/49] fix: dividing the smallest integer by -1 no longer
 traps

---
 source/lib_compiler/optimize.cpp | 5 +++--
 source/lib_compiler/sema.cpp     | 5 +++--
 source/lib_vm/thread.cpp         | 7 +++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 957198a..10b4912 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -291,8 +291,9 @@ protected:
       case TOK_LT:  v = a <  b; break;
       case TOK_GT:  v = a >  b; break;
       case TOK_EQ:  v = a == b; break;
-      case TOK_DIV: v = a /  b; break;
-      case TOK_MOD: v = a %  b; break;
+      // note: avoid the overflow trap of INT_MIN / -1
+      case TOK_DIV: v = (b == -1) ? int32_t(0u - uint32_t(a)) : a / b; break;
+      case TOK_MOD: v = (b == -1) ? 0 : a % b; break;
       default: assert(!"unknown operator");
       }
       val_[o] = v;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 32a0d6f..89e76d2 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -137,8 +137,9 @@ protected:
     case TOK_LT:      return a <  b;
     case TOK_GT:      return a >  b;
     case TOK_EQ:      return a == b;
-    case TOK_DIV:     return a /  b;
-    case TOK_MOD:     return a %  b;
+    // note: avoid the overflow trap of INT_MIN / -1
+    case TOK_DIV:     return (b == -1) ? int32_t(0u - uint32_t(a)) : a / b;
+    case TOK_MOD:     return (b == -1) ? 0 : a % b;
     default:
       assert(!"unknown operator");
     }
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 435af0f..8366457 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -171,7 +171,9 @@ void thread_t::do_INS_DIV_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v / r->v;
+      // note: avoid the overflow trap of INT_MIN / -1
+      const int32_t o = (r->v == -1) ? int32_t(0u - uint32_t(l->v)) :
+                                       (l->v / r->v);
       stack_.push_int(o);
     }
     return;
@@ -198,7 +200,8 @@ void thread_t::do_INS_MOD_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v % r->v;
+      // note: avoid the overflow trap of INT_MIN % -1
+      const int32_t o = (r->v == -1) ? 0 : (l->v % r->v);
       stack_.push_int(o);
     }
     return;
-- 
2.43.0


From 5be153c420e6de68d5795b1bb7e51bbe63bcb9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 14/49] fix: runaway recursion raises e_stack_overflow

A script that never stops calling consumed host memory without bound.
---
 source/lib_vm/thread.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 8366457..9377cf3 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -32,6 +32,9 @@ namespace nano {
 
 namespace {
 
+// maximum call depth of a thread
+const size_t max_frames = 1024 * 1024;
+
 bool to_string(std::string &out, const value_t *val) {
   switch (val->type()) {
   case val_type_float:
@@ -796,6 +799,11 @@ void thread_t::step_imp_() {
 }
 
 void thread_t::enter_(uint32_t sp, uint32_t pc, uint32_t callee) {
+  // catch runaway recursion before it eats all of the host memory
+  if (f_.size() >= max_frames) {
+    set_error_(thread_error_t::e_stack_overflow);
+    return;
+  }
   // create a new stack frame
   f_.emplace_back();
   frame_().sp_ = sp;
-- 
2.43.0


From e27f77fb94fd943858915b3c98a9825ebf06c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 15/49] fix: preparing a thread again drops its old frames

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 9377cf3..b3a47ee 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -692,6 +692,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   halted_ = false;
 
   stack_.clear();
+  f_.clear();
 
   // load the target pc (entry point)
   pc_ = func.code_start_;
-- 
2.43.0


From f3a6995fd22caf928881e1265142163a2d511de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:07 +0000
Subject: [PATCH 16/49] fix: setting the first breakpoint forgets the line of
 an earlier stop

The previous line is only tracked while there are breakpoints, so a stale one
made a thread run through a breakpoint that was set again later.
---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index b3a47ee..eeb248c 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -912,6 +912,10 @@ void thread_t::setv_(int32_t offs, value_t *val) {
 }
 
 void thread_t::breakpoint_add(line_t line) {
+  // the last line is not tracked while there are no breakpoints
+  if (breakpoints_.empty() && cycles_ > 0) {
+    last_line_ = get_source_line();
+  }
   breakpoints_.insert(line);
 }
 
-- 
2.43.0


From 126a9b79e0e44fd2875565e5ccc72c9705df39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:48 +0000
Subject: [PATCH 17/49] fix: a thread that finishes while being stepped is
 announced

on_thread_error and on_thread_finish were only called from resume.
---
 source/lib_vm/thread.cpp | 24 ++++++++++++++++--------
 source/lib_vm/thread.h   |  3 +++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index eeb248c..8efb84c 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -840,6 +840,9 @@ bool thread_t::step_inst() {
   }
   vm_.gc_collect();
   step_imp_();
+  if (finished_) {
+    notify_finish_();
+  }
   return !has_error();
 }
 
@@ -854,6 +857,7 @@ bool thread_t::step_line() {
     tick_gc_(1);
     step_imp_();
     if (finished_) {
+      notify_finish_();
       break;
     }
     assert(!f_.empty());
@@ -873,6 +877,17 @@ void thread_t::tick_gc_(int32_t cycles) {
   }
 }
 
+void thread_t::notify_finish_() {
+  if (has_error()) {
+    if (vm_.handlers.on_thread_error) {
+      vm_.handlers.on_thread_error(*this);
+    }
+  }
+  if (vm_.handlers.on_thread_finish) {
+    vm_.handlers.on_thread_finish(*this);
+  }
+}
+
 bool thread_t::resume(int32_t cycles) {
   if (finished_) {
     return false;
@@ -883,14 +898,7 @@ bool thread_t::resume(int32_t cycles) {
     tick_gc_(cycles);
     step_imp_();
     if (finished_) {
-      if (has_error()) {
-        if (vm_.handlers.on_thread_error) {
-          vm_.handlers.on_thread_error(*this);
-        }
-      }
-      if (vm_.handlers.on_thread_finish) {
-        vm_.handlers.on_thread_finish(*this);
-      }
+      notify_finish_();
       break;
     }
     if (halted_) {
diff --git a/source/lib_vm/thread.h b/source/lib_vm/thread.h
index 0666309..c91d22f 100644
--- a/source/lib_vm/thread.h
+++ b/source/lib_vm/thread.h
@@ -162,6 +162,9 @@ protected:
   // tick the garbage collector
   void tick_gc_(int32_t cycles);
 
+  // tell the host that this thread has finished
+  void notify_finish_();
+
   // step a single instruction (internal)
   void step_imp_();
 
-- 
2.43.0


From e51441c3050ab7bf0d3d062efa6b1b2068d0a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:48 +0000
Subject: [PATCH 18/49] fix: a thread error is reported at the line that caused
 it

The program counter had already moved on, so an error in the last instruction
of a statement was attributed to the next one (or to the callee).
---
 source/lib_vm/thread.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 8efb84c..c2752e4 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -426,6 +426,7 @@ void thread_t::do_INS_ICALL_() {
     assert(func);
     if (int32_t(func->num_args()) != num_args) {
       set_error_(thread_error_t::e_bad_num_args);
+      return;
     }
     // new frame
     enter_(stack_.head(), pc_, addr);
@@ -732,6 +733,8 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
 }
 
 void thread_t::step_imp_() {
+  // remember which instruction we are executing
+  const int32_t pc = pc_;
   // fetch opcode
   const uint8_t opcode = read_opcode_();
   // dispatch
@@ -783,6 +786,10 @@ void thread_t::step_imp_() {
   if (gc_.take_exhausted()) {
     set_error_(thread_error_t::e_out_of_memory);
   }
+  // an error should be reported at the instruction that caused it
+  if (has_error()) {
+    pc_ = pc;
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
-- 
2.43.0


From 2801aae38f07486f595c5390c8d586831a09625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:48 +0000
Subject: [PATCH 19/49] fix: step_line does not stop at instructions without a
 source line

---
 source/lib_vm/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index c2752e4..2796c9a 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -860,6 +860,7 @@ bool thread_t::step_line() {
   // get the current source line
   const line_t line = get_source_line();
   // step until the source line changes
+  // note: some instructions, such as the jump over an else, have no line
   do {
     tick_gc_(1);
     step_imp_();
@@ -869,7 +870,7 @@ bool thread_t::step_line() {
     }
     assert(!f_.empty());
     assert(!has_error());
-  } while (line == get_source_line());
+  } while (get_source_line() == line || get_source_line() == line_t{});
   return !has_error();
 }
 
-- 
2.43.0


From 3c3cd8897985eaaa14c28b54e2539c39ded07c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 20/49] fix: instructions without a line do not make a
 breakpoint hit again

A folded loop condition has no line, so a one line loop was taken to arrive at
its own line from somewhere else in each iteration.
---
 source/lib_vm/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 2796c9a..fe7d14c 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -800,7 +800,10 @@ void thread_t::step_imp_() {
       }
     }
     // keep track of the last source line we were on
-    last_line_ = l;
+    // note: some instructions have no source line
+    if (l != line_t{}) {
+      last_line_ = l;
+    }
   }
   // increment cycle count
   ++cycles_;
-- 
2.43.0


From a5daf04e6ed3c4d9f57cd980f1095880fe416cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 21/49] fix: serial_save reports write and close errors

It returned success whatever happened to the data, for example on a full disk.
---
 source/lib_common/program.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 73afec5..2f1cd9d 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -155,8 +155,9 @@ bool program_t::serial_save(const char *path) {
     emit(fd, s);
   }
   // done
-  fclose(fd);
-  return true;
+  // note: buffered data may only fail to be written when closing
+  const bool ok = (ferror(fd) == 0);
+  return (fclose(fd) == 0) && ok;
 }
 
 bool program_t::serial_load(const char *path) {
-- 
2.43.0


From 5829fea40b3edddde0a8b67bf9cc003e1de8f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 22/49] fix: serial_load survives damaged files

Strings of 256 or more characters hit an assert although serial_save writes
them, a damaged size was used unchecked, a failed read of a syscall name was
ignored, and a failed load left the file open and half a program behind.
---
 source/lib_common/program.cpp | 52 +++++++++++++++++++++--------------
 source/lib_common/program.h   |  4 +++
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 2f1cd9d..7e113bb 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstdio>
 #include <memory>
 
@@ -72,22 +73,28 @@ bool consume(FILE *fd, nano::program_t::linetable_t &s) {
   return true;
 }
 
-bool consume(FILE *fd, std::string &string) {
-  int32_t size = 0;
-  if (1 != fread(&size, 4, 1, fd)) {
-    return false;
-  }
-  assert(size < 256);
-  string.resize(size);
-  auto data = std::make_unique<char[]>(size + 1);
-  if (fread(data.get(), 1, size, fd) != size) {
-    return false;
+// read a block in small pieces so that a damaged size can not make us allocate
+// much more than there is data in the file
+template <typename type_t>
+bool consume(FILE *fd, type_t &out, int32_t size) {
+  TRY(size >= 0);
+  out.clear();
+  while (size > 0) {
+    char data[1024];
+    const size_t todo = std::min<size_t>(size, sizeof(data));
+    TRY(fread(data, 1, todo, fd) == todo);
+    out.insert(out.end(), data, data + todo);
+    size -= int32_t(todo);
   }
-  data[size] = '\0';
-  string.assign(data.get());
   return true;
 }
 
+bool consume(FILE *fd, std::string &string) {
+  int32_t size = 0;
+  TRY(consume(fd, size));
+  return consume(fd, string, size);
+}
+
 bool consume(FILE *fd, nano::function_t &f) {
   // name
   TRY(consume(fd, f.name_));
@@ -161,13 +168,22 @@ bool program_t::serial_save(const char *path) {
 }
 
 bool program_t::serial_load(const char *path) {
-  // open the output file
-  FILE *fd = fopen(path, "rb");
+  // open the input file
+  std::unique_ptr<FILE, int(*)(FILE *)> fd(fopen(path, "rb"), fclose);
   if (!fd) {
     return false;
   }
   // reset this program prior
   reset();
+  if (!serial_read_(fd.get())) {
+    // dont leave half a program behind
+    reset();
+    return false;
+  }
+  return true;
+}
+
+bool program_t::serial_read_(FILE *fd) {
   // read header
   int32_t magic_no = 0;
   TRY(consume(fd, magic_no));
@@ -185,7 +201,7 @@ bool program_t::serial_load(const char *path) {
   for (int32_t i = 0; i < num_syscalls; ++i) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
-    consume(fd, syscalls_.back().name_);
+    TRY(consume(fd, syscalls_.back().name_));
   }
   // read functions
   int32_t num_functions = 0;
@@ -197,10 +213,7 @@ bool program_t::serial_load(const char *path) {
   // read bytecode
   int32_t code_size = 0;
   TRY(consume(fd, code_size));
-  code_.resize(code_size);
-  if (fread(code_.data(), 1, code_size, fd) != code_size) {
-    return false;
-  }
+  TRY(consume(fd, code_, code_size));
   // emit the line table
   TRY(consume(fd, line_table_));
   // emit the string table
@@ -211,7 +224,6 @@ bool program_t::serial_load(const char *path) {
     TRY(consume(fd, strings_.back()));
   }
   // done
-  fclose(fd);
   return true;
 }
 
diff --git a/source/lib_common/program.h b/source/lib_common/program.h
index 1a2b2e7..69c8203 100644
--- a/source/lib_common/program.h
+++ b/source/lib_common/program.h
@@ -6,6 +6,7 @@
 #include <array>
 #include <memory>
 #include <cassert>
+#include <cstdio>
 
 
 #include "common.h"
@@ -92,6 +93,9 @@ struct program_t {
 protected:
   friend struct program_builder_t;
 
+  // load from an open file
+  bool serial_read_(FILE *fd);
+
   // XXX: add filetable
 
   // add a line to the line table
-- 
2.43.0


From 9c80784b1243a6936f654b19bce04f4ce8dc2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 23/49] fix: file_t::load copes with inputs that have no size

Loading a directory asked for an absurd amount of memory, and the file was left
open when that failed.
---
 source/lib_common/file.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/source/lib_common/file.h b/source/lib_common/file.h
index e51203a..97d6c46 100644
--- a/source/lib_common/file.h
+++ b/source/lib_common/file.h
@@ -1,38 +1,38 @@
 #include <memory>
+#include <vector>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 struct file_t {
 
+  file_t() : _size(0) {}
+
   bool load(const char *path) {
 
     if (_data) {
       unload();
     }
 
-    FILE *fd = fopen(path, "rb");
+    std::unique_ptr<FILE, int(*)(FILE *)> fd(fopen(path, "rb"), fclose);
     if (!fd) {
       return false;
     }
 
-    fseek(fd, 0, SEEK_END);
-    _size = ftell(fd);
-    fseek(fd, 0, SEEK_SET);
-
-    if (_size == 0) {
-      fclose(fd);
-      return false;
+    // note: the size is unknown, or nonsense, for pipes and directories
+    std::vector<uint8_t> data;
+    uint8_t temp[4096];
+    while (const size_t read = fread(temp, 1, sizeof(temp), fd.get())) {
+      data.insert(data.end(), temp, temp + read);
     }
-    _data.reset(new uint8_t[_size]);
-
-    const size_t read = fread(_data.get(), 1, _size, fd);
-
-    fclose(fd);
-    if (read != _size) {
-      unload();
+    if (ferror(fd.get()) || data.empty()) {
       return false;
     }
 
+    _data.reset(new uint8_t[data.size()]);
+    memcpy(_data.get(), data.data(), data.size());
+    _size = data.size();
     return true;
   }
 
-- 
2.43.0


From c69ab96d7b5620a263da560086edcb6d685b5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 24/49] fix: a source that failed to load is not kept

The empty source it left behind crashed a later build, and its empty path made
every following load report success.
---
 source/lib_common/source.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 9fe9b63..36cb292 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -47,13 +47,21 @@ bool source_manager_t::load(const char *path) {
       return true;
     }
   }
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_file(path);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_file(path)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 bool source_manager_t::load_from_string(const char *str) {
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_string(str);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_string(str)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 } // namespace nano
-- 
2.43.0


From 590d5b69e44c28689ac928ddb96ad7e946744292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 25/49] fix: a path is not the same as one that merely starts
 with it

Importing 'lib2' after 'lib' was silently skipped.
---
 source/lib_common/source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 36cb292..5420c3f 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -28,7 +28,8 @@ bool path_cmp(const char *x, const char *y) {
     }
     return false;
   }
-  return true;
+  // both paths must end here
+  return *y == '\0';
 }
 
 } // namespace {}
-- 
2.43.0


From 1a5ef65f7fc8de882fbe3bdba04c7b1dbc2bdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 26/49] fix: imports of a source without a directory are not
 taken from the root

---
 source/lib_common/source.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 5420c3f..12bf0a8 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -37,6 +37,10 @@ bool path_cmp(const char *x, const char *y) {
 namespace nano {
 
 void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
+  // a source without a directory imports from the current one
+  if (s.file_path().find_first_of("/\\") == std::string::npos) {
+    return;
+  }
   std::string base = base_path(s.file_path());
   in_out = base + "/" + in_out;
 }
-- 
2.43.0


From cbd7eb3006bed88e16a376596c2dfffbaea25f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 27/49] fix: the lexer stops at the end of a source that ends
 in a comment

---
 source/lib_compiler/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index df9c690..b9ff782 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -86,6 +86,10 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
         ++line_.line;
       }
       push_(TOK_EOL);
+      // dont step over the end of the source
+      if (*s == '\0') {
+        break;
+      }
       continue;
     }
 
-- 
2.43.0


From 206d5a55f0803718f937abbc69735533733b7015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:58 +0000
Subject: [PATCH 28/49] fix: the branches of an if have their own scopes

Both shared one scope that was ordered by node address, so which of two equally
named variables an else branch used depended on the memory layout.
---
 source/lib_compiler/sema.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 89e76d2..86be032 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -318,7 +318,7 @@ struct sema_decl_annotate_t : public ast_visitor_t {
       switch (f->type) {
       case ast_decl_func_e:
       case ast_decl_var_e:
-        scope_[0].insert(f);
+        scope_[0].push_back(f);
         break;
       default:
         break;
@@ -405,8 +405,13 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_stmt_if_t *n) override {
+    dispatch(n->expr);
+    // each branch has its own scope
     scope_.emplace_back();
-    ast_visitor_t::visit(n);
+    dispatch(n->then_block);
+    scope_.pop_back();
+    scope_.emplace_back();
+    dispatch(n->else_block);
     scope_.pop_back();
   }
 
@@ -418,7 +423,7 @@ struct sema_decl_annotate_t : public ast_visitor_t {
 
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
-    scope_.back().insert(n);
+    scope_.back().push_back(n);
   }
 
   ast_node_t *find_decl(const std::string &name) {
@@ -443,7 +448,7 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     return out;
   }
 
-  std::vector<std::set<ast_node_t *>> scope_;
+  std::vector<std::vector<ast_node_t *>> scope_;
 
   error_manager_t &errs_;
   nano_t &nano_;
-- 
2.43.0


From 2bcf1dd1c1419d40c07eb4ca165b4fe15f74210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:58 +0000
Subject: [PATCH 29/49] fix: removing a dead branch no longer changes a
 constant

After 'if (X)' with 'const X = 0' every other use of X became 1.
---
 source/lib_compiler/optimize.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 10b4912..8695a68 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -347,6 +347,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
   opt_if_remove_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {}
 
   void visit(ast_stmt_if_t *s) override {
@@ -359,7 +360,8 @@ struct opt_if_remove_t: public ast_visitor_t {
       else {
         s->then_block = s->else_block;
         s->else_block = nullptr;
-        c->val = 1;
+        // note: a literal can be shared with other uses of the same constant
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
       }
     }
   }
@@ -379,6 +381,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
 protected:
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From 48a4a6965742827341452e28f8da757836efb66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:58 +0000
Subject: [PATCH 30/49] fix: ast_t::gc keeps array initialisers and member
 assignments

They were deleted while still in use by the tree, so dumping it crashed.
---
 source/lib_compiler/ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/ast.cpp b/source/lib_compiler/ast.cpp
index ce29b6f..a9b7d1f 100644
--- a/source/lib_compiler/ast.cpp
+++ b/source/lib_compiler/ast.cpp
@@ -91,6 +91,16 @@ struct gc_visitor_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_exp_array_init_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_stmt_call_t* n) override {
     nodes_.insert(n);
     ast_visitor_t::visit(n);
-- 
2.43.0


From 46b0ef77d2f364af04a801c39d9a809ae984bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:58 +0000
Subject: [PATCH 31/49] fix: global initialisers that are not constant no
 longer crash sema

This hit 'not', the negation of a variable or call, and function names.
---
 source/lib_compiler/sema.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 86be032..cfa59f4 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -21,6 +21,11 @@ struct eval_t: public ast_visitor_t {
     }
 
     decend_(n);
+    // the operand may not have been constant
+    if (!valid_ || value_.empty()) {
+      valid_ = false;
+      return;
+    }
     const int32_t v = value_.back();
     int32_t r = 0;
     value_.pop_back();
@@ -28,6 +33,9 @@ struct eval_t: public ast_visitor_t {
     case TOK_SUB:
       r = -v;
       break;
+    case TOK_NOT:
+      r = !v;
+      break;
     default:
       assert(!"unknown operator");
     }
@@ -53,8 +61,8 @@ struct eval_t: public ast_visitor_t {
   void visit(ast_exp_ident_t *n) override {
     assert(n->decl);
     ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
-    assert(decl);
-    if (decl->is_const) {
+    // note: could also be a function
+    if (decl && decl->is_const) {
       if (auto *v = decl->expr->cast<ast_exp_lit_var_t>()) {
         value_.push_back(v->val);
         return;
-- 
2.43.0


From 85832cc04dc69dc5cda241dcd2e7177e7c40bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:58 +0000
Subject: [PATCH 32/49] fix: misusing a constant or a function as an object is
 a compile error

Calling a constant, looping over it, assigning to its elements or members, and
accessing a member of a constant or function all hit asserts.
---
 source/lib_compiler/ast.h    |  1 +
 source/lib_compiler/sema.cpp | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 631728d..124ea9f 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -276,6 +276,7 @@ struct ast_exp_call_t : public ast_node_t {
         args[i] = with;
       }
     }
+    callee = (callee == which) ? with : callee;
   }
 
   const token_t *token;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index cfa59f4..23d963b 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -202,6 +202,38 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_array_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_for_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_member_t *n) override {
+    ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
+    if (decl && decl->is_const) {
+      // there is no object to access
+      errs_.cant_evaluate_constant(*n->name);
+    }
+  }
+
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
     if (n->is_const) {
@@ -377,7 +409,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     n->decl = find_decl(n->name->str_);
     if (n->decl) {
       if (!n->decl->cast<ast_decl_var_t>()) {
-        assert(!"TODO: Revise this later please");
+        // functions dont have members
+        errs_.unexpected_token(*n->name);
       }
       return;
     }
-- 
2.43.0


From b4254634f68ad97cb9abe26527ec98004d9bd55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:58 +0000
Subject: [PATCH 33/49] fix: objects are not leaked when the container that
 owns them cannot grow

---
 source/lib_compiler/ast.h    | 6 +++---
 source/lib_compiler/nano.cpp | 2 +-
 source/lib_vm/vm.cpp         | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 124ea9f..7eed9eb 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -640,9 +640,9 @@ struct ast_t {
   T *alloc(Types &&... args) {
     static_assert(std::is_base_of<ast_node_t, T>::value,
       "type must derive from ast_node_t");
-    T *obj = new T(std::forward<Types>(args)...);
-    allocs_.push_back(obj);
-    return obj;
+    std::unique_ptr<T> obj(new T(std::forward<Types>(args)...));
+    allocs_.push_back(obj.get());
+    return obj.release();
   }
 
   ast_program_t program;
diff --git a/source/lib_compiler/nano.cpp b/source/lib_compiler/nano.cpp
index 61e62b9..8c8a728 100644
--- a/source/lib_compiler/nano.cpp
+++ b/source/lib_compiler/nano.cpp
@@ -46,7 +46,7 @@ bool nano_t::build(source_manager_t &sources, error_t &error) {
       const source_t &src = sources.get_source(index);
       source_ = &src;
       // create a lexer for this file
-      lexer_.emplace_back(new lexer_t(*this));
+      lexer_.push_back(std::unique_ptr<lexer_t>(new lexer_t(*this)));
       // lex this source file into tokens
       if (!lexer().lex(src.data(), index)) {
         return false;
diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 6fd5b12..1e9c4f3 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -98,7 +98,8 @@ thread_t *vm_t::new_thread(const function_t &func,
   }
   thread_t *inst = t.get();
   // insert into the thread list
-  threads_.push_front(t.release());
+  threads_.push_front(inst);
+  t.release();
   return inst;
 }
 
-- 
2.43.0


From 18bbd78d7a4abc3bbc0c9ee3380b2711b8d4d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:58 +0000
Subject: [PATCH 34/49] fix: gets() returns an empty string at the end of input

It returned whatever was in the uninitialised buffer.
---
 source/driver/driver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 2297161..7b0f924 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -51,8 +51,11 @@ void vm_putc(nano::thread_t &t, int32_t) {
 
 void vm_gets(nano::thread_t &t, int32_t) {
   using namespace nano;
-  char buffer[80];
-  fgets(buffer, sizeof(buffer), stdin);
+  char buffer[80] = {'\0'};
+  if (!fgets(buffer, sizeof(buffer), stdin)) {
+    // end of input
+    buffer[0] = '\0';
+  }
   for (size_t i = 0; i < sizeof(buffer); ++i) {
     buffer[i] = (buffer[i] == '\n') ? '\0' : buffer[i];
   }
-- 
2.43.0


From 7bae3c39e7c75181591b46b1d2b7e0606e564aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:09 +0000
Subject: [PATCH 35/49] fix: drop finished threads even when a wait is pending

A function that waits and is driven by call_once, call_init or a direct
thread resume ends with its wait count still set. Such threads stayed in
the thread list, keeping their stacks alive, for as many rounds as they had
asked to wait.
---
 source/lib_vm/vm.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 1e9c4f3..01b56e4 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -108,17 +108,18 @@ bool vm_t::resume(uint32_t cycles) {
   for (; itt != threads_.end();) {
     thread_t *t = *itt;
     assert(t);
-    if (t->waits) {
-      --t->waits;
-      ++itt;
-      continue;
-    }
+    // note: a thread that was not run by us can finish with waits pending
     if (t->finished() || t->has_error()) {
       // delete the thread
       delete t;
       itt = threads_.erase(itt);
       continue;
     }
+    if (t->waits) {
+      --t->waits;
+      ++itt;
+      continue;
+    }
     // we will be advancing regardless
     ++itt;
     if (!t->resume(cycles)) {
-- 
2.43.0


From c89ca01763b2fbfed12632a40eddddc60c6bf96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:36 +0000
Subject: [PATCH 36/49] fix: call_once drops the threads of previous calls

They stayed in the thread list, with everything their stacks refer to, until
the next vm_t::resume so a host that only uses call_once ran out of memory.
---
 source/lib_vm/thread.cpp |  1 +
 source/lib_vm/thread.h   |  3 +++
 source/lib_vm/vm.cpp     | 17 +++++++++++++++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index fe7d14c..1a97e31 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -59,6 +59,7 @@ thread_t::thread_t(vm_t &vm)
   , cycles_(0)
   , finished_(true)
   , halted_(false)
+  , called_(false)
   , pc_(0)
   , vm_(vm)
   , gc_(*(vm.gc_))
diff --git a/source/lib_vm/thread.h b/source/lib_vm/thread.h
index c91d22f..5d170b1 100644
--- a/source/lib_vm/thread.h
+++ b/source/lib_vm/thread.h
@@ -140,6 +140,9 @@ protected:
   // syscalls can set to true to halt execution
   bool halted_;
 
+  // true when this thread was the subject of a vm_t::call_once that returned
+  bool called_;
+
   // program counter
   int32_t pc_;
 
diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 01b56e4..d9ef664 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -69,6 +69,18 @@ bool vm_t::call_once(const function_t &func,
   error = nano::thread_error_t::e_success;
   return_code = nullptr;
 
+  // drop previous calls, which otherwise pile up until the next vm_t::resume
+  for (auto itt = threads_.begin(); itt != threads_.end();) {
+    thread_t *t = *itt;
+    if (t->called_) {
+      delete t;
+      itt = threads_.erase(itt);
+    }
+    else {
+      ++itt;
+    }
+  }
+
   thread_t *thread = new_thread(func, argc, argv);
   if (!thread) {
     error = (func.num_args() != argc) ? thread_error_t::e_bad_num_args :
@@ -81,6 +93,7 @@ bool vm_t::call_once(const function_t &func,
       break;
     }
   }
+  thread->called_ = true;
   if (thread->has_error()) {
     error = thread->get_error();
     return false;
@@ -120,13 +133,13 @@ bool vm_t::resume(uint32_t cycles) {
       ++itt;
       continue;
     }
-    // we will be advancing regardless
-    ++itt;
     if (!t->resume(cycles)) {
       // thread has an error
       assert(t->has_error());
       return false;
     }
+    // note: a call_once made by this thread could have removed the next one
+    ++itt;
   }
   return true;
 }
-- 
2.43.0


From 1cdedcecd5f3b0d5d5ee350fd0e6e7a86a4fd7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:58 +0000
Subject: [PATCH 37/49] fix: a heap full of garbage does not refuse a call

The arguments of call_once were copied before the collection, and the data of
deleted threads was not collected before new ones were started, so after a
thread ran out of memory the next call was refused.
---
 source/lib_vm/vm.cpp  | 17 +++++++++++++++++
 source/lib_vm/vm_gc.h |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index d9ef664..20a1842 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -81,6 +81,17 @@ bool vm_t::call_once(const function_t &func,
     }
   }
 
+  // the arguments have to fit in the heap
+  if (gc_->should_collect()) {
+    // note: they can be values that live in the heap and will be moved
+    for (int32_t i = 0; i < argc; ++i) {
+      if (gc_->owns(argv[i])) {
+        gc_->trace((value_t **)&argv[i], 1);
+      }
+    }
+    gc_collect();
+  }
+
   thread_t *thread = new_thread(func, argc, argv);
   if (!thread) {
     error = (func.num_args() != argc) ? thread_error_t::e_bad_num_args :
@@ -117,6 +128,7 @@ thread_t *vm_t::new_thread(const function_t &func,
 }
 
 bool vm_t::resume(uint32_t cycles) {
+  bool dropped = false;
   auto itt = threads_.begin();
   for (; itt != threads_.end();) {
     thread_t *t = *itt;
@@ -126,6 +138,7 @@ bool vm_t::resume(uint32_t cycles) {
       // delete the thread
       delete t;
       itt = threads_.erase(itt);
+      dropped = true;
       continue;
     }
     if (t->waits) {
@@ -141,6 +154,10 @@ bool vm_t::resume(uint32_t cycles) {
     // note: a call_once made by this thread could have removed the next one
     ++itt;
   }
+  // what the deleted threads held should not be in the way of new ones
+  if (dropped && gc_->should_collect()) {
+    gc_collect();
+  }
   return true;
 }
 
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 31557f5..79a29e8 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -103,6 +103,11 @@ struct value_gc_t {
 
   bool should_collect() const;
 
+  // return true if a value lives in this heap
+  bool owns(const value_t *v) const {
+    return space_to().owns(v);
+  }
+
   // return true if an allocation failed since the last time this was called
   // note: the new_* functions and copy() return nullptr when they fail
   bool take_exhausted() {
-- 
2.43.0


From 89b7eb609a58811ec6aabd56851738e533f0e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:21 +0000
Subject: [PATCH 38/49] fix: token_name knows strings and imports

---
 source/lib_compiler/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_compiler/token.cpp b/source/lib_compiler/token.cpp
index 89c0bab..b74583c 100644
--- a/source/lib_compiler/token.cpp
+++ b/source/lib_compiler/token.cpp
@@ -99,6 +99,8 @@ const char *token_t::token_name(token_e e) {
   case TOK_RBRACKET: return "]";
   case TOK_NONE:     return "none";
   case TOK_DOT:      return ".";
+  case TOK_STRING:   return "string";
+  case TOK_IMPORT:   return "import";
   default:
     assert(!"unhandled token type");
     return "";
-- 
2.43.0


From cc9b95be1a4d9e8025fc53b090c2e808e0262ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:13 +0000
Subject: [PATCH 39/49] fix: deeply nested sources are rejected instead of
 exhausting the stack

---
 source/lib_compiler/ast.cpp    |  6 ++++++
 source/lib_compiler/ast.h      |  3 +++
 source/lib_compiler/errors.h   |  4 ++++
 source/lib_compiler/parser.cpp | 26 ++++++++++++++++++++++++++
 source/lib_compiler/parser.h   |  4 ++++
 source/lib_compiler/sema.cpp   | 12 +++++++++++-
 6 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/ast.cpp b/source/lib_compiler/ast.cpp
index a9b7d1f..b64b09f 100644
--- a/source/lib_compiler/ast.cpp
+++ b/source/lib_compiler/ast.cpp
@@ -5,10 +5,16 @@
 
 namespace nano {
 
+// the deepest tree that is visited recursively
+static const size_t max_depth = 2000;
+
 void ast_visitor_t::dispatch(ast_node_t *n) {
   if (!n) {
     return;
   }
+  if (stack.size() >= max_depth) {
+    too_deep();
+  }
   stack.push_back(n);
   switch (n->type) {
   case ast_program_e:            visit(n->cast<ast_program_t>());            break;
diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 7eed9eb..52bb104 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -757,6 +757,9 @@ struct ast_visitor_t {
   }
 
 protected:
+  // called when nodes are nested too deeply to be visited safely
+  virtual void too_deep() {}
+
   std::vector<ast_node_t*> stack;
   void dispatch(ast_node_t *node);
 };
diff --git a/source/lib_compiler/errors.h b/source/lib_compiler/errors.h
index 3f33c54..6aa98f5 100644
--- a/source/lib_compiler/errors.h
+++ b/source/lib_compiler/errors.h
@@ -50,6 +50,10 @@ struct error_manager_t {
     on_error_(t.line_, "unexpected token '%s'", t.string());
   }
 
+  virtual void nested_too_deeply(const token_t &t) {
+    on_error_(t.line_, "nested too deeply at '%s'", t.string());
+  }
+
   virtual void bad_import(const token_t &t) {
     on_error_(t.line_, "unable to import '%s'", t.string());
   }
diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index c4c9957..e1c3040 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -9,6 +9,29 @@
 
 using namespace nano;
 
+// ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
+// bounds the recursion of the parser so a source can not exhaust the stack
+struct parser_t::nest_t {
+
+  nest_t(parser_t &parser)
+    : parser_(parser)
+  {
+    if (parser_.depth_ >= max_depth) {
+      nano_t &nano = parser_.nano_;
+      nano.errors().nested_too_deeply(*nano.lexer().stream().peek());
+    }
+    ++parser_.depth_;
+  }
+
+  ~nest_t() {
+    --parser_.depth_;
+  }
+
+protected:
+  static const uint32_t max_depth = 1000;
+  parser_t &parser_;
+};
+
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
 bool parser_t::parse(error_t &error) {
   token_stream_t &stream_ = nano_.lexer().stream();
@@ -218,6 +241,7 @@ void parser_t::parse_lhs_() {
 }
 
 void parser_t::parse_expr_ex_(uint32_t tide) {
+  nest_t nest(*this);
   token_stream_t &stream_ = nano_.lexer().stream();
   auto &ast = nano_.ast();
 
@@ -511,6 +535,7 @@ ast_node_t* parser_t::parse_compound_(const token_t &t) {
 }
 
 ast_node_t* parser_t::parse_stmt_() {
+  nest_t nest(*this);
   token_stream_t &stream_ = nano_.lexer().stream();
   auto &ast = nano_.ast();
 
@@ -797,5 +822,6 @@ void parser_t::reset() {
 
 parser_t::parser_t(nano_t &c)
   : nano_(c)
+  , depth_(0)
 {
 }
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index b3c3afa..727e749 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -27,6 +27,10 @@ protected:
   // expression stack
   std::vector<ast_node_t*> exp_stack_;
 
+  // nesting depth of the construct being parsed
+  uint32_t depth_;
+  struct nest_t;
+
   // parse specific language constructs
 //  ast_node_t* parse_array_get_(const token_t &name);
   ast_node_t* parse_array_set_(const token_t &name);
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 23d963b..3fee2bc 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -334,7 +334,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   sema_decl_annotate_t(nano_t &nano)
     : errs_(nano.errors())
     , nano_(nano)
-    , prog_(nullptr) {
+    , prog_(nullptr)
+    , where_(nullptr) {
   }
 
   void visit(ast_stmt_for_t *p) override {
@@ -440,6 +441,7 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_decl_func_t *n) override {
+    where_ = n->token;
     scope_.emplace_back();
     ast_visitor_t::visit(n);
     scope_.pop_back();
@@ -463,10 +465,16 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_decl_var_t *n) override {
+    where_ = n->name;
     ast_visitor_t::visit(n);
     scope_.back().push_back(n);
   }
 
+  // this is the first pass so the others will never see such a tree
+  void too_deep() override {
+    errs_.nested_too_deeply(*where_);
+  }
+
   ast_node_t *find_decl(const std::string &name) {
     ast_node_t *out = nullptr;
     // move from inner to outer scope
@@ -494,6 +502,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   error_manager_t &errs_;
   nano_t &nano_;
   ast_program_t *prog_;
+  // the most recent declaration
+  const token_t *where_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From e5d370ea6b426aa39e7ebdb01fb5ebba6f0007a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:25 +0000
Subject: [PATCH 40/49] fix: console runner reports an error when none is
 printed

puts, print and putc asserted that the value is not null, but null is how
none is represented, so a script that prints none aborted the runner.
---
 source/driver/driver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 7b0f924..29276c3 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -39,7 +39,6 @@ void vm_getc(nano::thread_t &t, int32_t) {
 void vm_putc(nano::thread_t &t, int32_t) {
   using namespace nano;
   const value_t *v = t.get_stack().pop();
-  assert(v);
   if (!v->is_a<val_type_int>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
@@ -66,7 +65,6 @@ void vm_gets(nano::thread_t &t, int32_t) {
 void vm_puts(nano::thread_t &t, int32_t) {
   using namespace nano;
   value_t *s = t.get_stack().pop();
-  assert(s);
   if (!s->is_a<val_type_string>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
-- 
2.43.0


From f96ae50eb9fa42aea8af5e83b39c885696e312e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:45 +0000
Subject: [PATCH 41/49] fix: flip copies whole rows of the canvas

It copied as many pixels of each row as the canvas is high: the right part of
a wide canvas never appeared, and a tall one was read and written past its end.
---
 source/driver_sdl/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 59dab76..bc55944 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -284,7 +284,7 @@ void vm_flip(nano::thread_t &t, int32_t) {
     uint32_t *d = (uint32_t *)global.screen_->pixels;
 
     for (uint32_t y = 0; y < h; ++y) {
-      for (uint32_t x = 0, j = 0; x < h; ++x, j += 3) {
+      for (uint32_t x = 0, j = 0; x < w; ++x, j += 3) {
         const uint32_t c = s[x];
         d[j + 0 + p0] = d[j + 1 + p0] = d[j + 2 + p0] = c;
         d[j + 0 + p1] = d[j + 1 + p1] = d[j + 2 + p1] = c;
-- 
2.43.0


From a6c2c6bae1c238d9f55e0693bf86ab9f7cd9414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:30 +0000
Subject: [PATCH 42/49] fix: sleep lasts as long as asked for

A negative time put the mark far into the future, a mark past the end of the
tick counter ended the sleep at once, a counter that wrapped stopped scripts
for weeks, and a shorter sleep of an other thread cut a longer one short.
---
 source/driver_sdl/driver.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index bc55944..5a15338 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -13,7 +13,14 @@
 
 namespace {
 
+// scripts are not resumed until tick_mark has passed
 uint32_t tick_mark = 0;
+bool sleeping = false;
+
+// note: the tick counter wraps around every 49 days
+bool tick_passed(uint32_t mark) {
+  return (int32_t)(SDL_GetTicks() - mark) > 0;
+}
 
 struct global_t {
   SDL_Window *window_ = nullptr;
@@ -53,7 +60,12 @@ void vm_cls(nano::thread_t &t, int32_t) {
 void vm_sleep(nano::thread_t &t, int32_t) {
   nano::value_t *val = t.get_stack().pop();
   if (val->is_number()) {
-    tick_mark = SDL_GetTicks() + val->as_int();
+    const uint32_t mark = SDL_GetTicks() + std::max<int32_t>(val->as_int(), 0);
+    // an other thread can already have asked for more time
+    if (!sleeping || (int32_t)(mark - tick_mark) > 0) {
+      tick_mark = mark;
+    }
+    sleeping = true;
     t.halt();
   }
   // return value
@@ -386,7 +398,8 @@ int main(int argc, char **argv) {
   bool active = true;
   while (active) {
 
-    if (SDL_GetTicks() > tick_mark) {
+    if (!sleeping || tick_passed(tick_mark)) {
+      sleeping = false;
       if (!vm.resume(1024)) {
         break;
       }
-- 
2.43.0


From 8fc92d7cf67389493b275fd9b77e00c009d8f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:17 +0000
Subject: [PATCH 43/49] fix: video refuses impossible sizes and reports success

The result was inverted, sizes of zero, below it or far too large were used
for the canvas, and when a second window could not be opened the canvas no
longer fitted the surface of the first.
---
 source/driver_sdl/driver.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 5a15338..c2f91c4 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -79,7 +79,15 @@ void vm_video(nano::thread_t &t, int32_t) {
 
   bool ok = false;
 
-  if (w->is_a<val_type_int>() && h->is_a<val_type_int>()) {
+  if (w->is_a<val_type_int>() && w->v > 0 && w->v <= 4096 &&
+      h->is_a<val_type_int>() && h->v > 0 && h->v <= 4096) {
+
+    // close the previous window
+    global.screen_ = nullptr;
+    if (global.window_) {
+      SDL_DestroyWindow(global.window_);
+    }
+
     global.width_ = (uint32_t)w->v;
     global.height_ = (uint32_t)h->v;
     global.video_.reset(new uint32_t[(uint32_t)(w->v * h->v)]);
@@ -94,7 +102,7 @@ void vm_video(nano::thread_t &t, int32_t) {
     if (global.window_) {
       global.screen_ = SDL_GetWindowSurface(global.window_);
     }
-    if (!global.window_ || !global.screen_) {
+    if (global.window_ && global.screen_) {
       ok = true;
     }
   }
-- 
2.43.0


From c4df167c1ae475d420cc0a0eb12dd05f04d9c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:28 +0000
Subject: [PATCH 44/49] fix: command line compiler reports outputs it could not
 write

An output that could not be opened was skipped and a full disk went unnoticed,
with exit status 0; a long source name overran a buffer.
---
 source/comp/driver.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index a4db833..043d588 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -1,4 +1,5 @@
 #include <cstdio>
+#include <string>
 
 #include "../lib_compiler/nano.h"
 #include "../lib_compiler/codegen.h"
@@ -21,9 +22,19 @@ void on_error(const nano::error_t &error) {
 } // namespace
 
 FILE *fd_open(const char *base, const char *ext) {
-  char buf[1024];
-  sprintf(buf, "%s%s", base, ext);
-  return fopen(buf, "wb");
+  const std::string path = std::string(base) + ext;
+  FILE *fd = fopen(path.c_str(), "wb");
+  if (!fd) {
+    fprintf(stderr, "unable to open output '%s'\n", path.c_str());
+    exit(1);
+  }
+  return fd;
+}
+
+// returns false if not everything could be written
+bool fd_close(FILE *fd) {
+  const bool ok = !ferror(fd);
+  return (fclose(fd) == 0) && ok;
 }
 
 void usage(const char *path) {
@@ -114,5 +125,11 @@ int main(int argc, char **argv) {
     fwrite(data, 1, program.size(), fd_bin);
   }
 
+  for (FILE *fd : {fd_ast, fd_dis, fd_bin}) {
+    if (fd && !fd_close(fd)) {
+      fprintf(stderr, "unable to write output\n");
+      return -3;
+    }
+  }
   return 0;
 }
-- 
2.43.0


From c565faea3f63382833722a6821009a089fc74bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:36 +0000
Subject: [PATCH 45/49] fix: constants are not listed as globals

---
 source/lib_compiler/codegen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index d0a0230..00daa96 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -457,7 +457,10 @@ struct codegen_pass_t: ast_visitor_t {
   void visit(ast_decl_var_t* n) override {
     // collect the globals
     if (n->is_global()) {
-      stream_.add_global(n->name->str_, n->offset);
+      // note: constants have no storage
+      if (!n->is_const) {
+        stream_.add_global(n->name->str_, n->offset);
+      }
       return;
     }
     // must be local
-- 
2.43.0


From 3e8a2d44ff9add632f4f2c804d2a7f8b4803eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:36 +0000
Subject: [PATCH 46/49] fix: long lines do not overflow their slope

---
 source/driver_sdl/driver.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index c2f91c4..0952fbb 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -208,14 +208,16 @@ static inline void line(int32_t x0, int32_t y0, int32_t x1, int32_t y1) {
   } else {
     incrementVal = 1;
   }
-  const int32_t decInc = (longLen == 0) ? 0 : (shortLen << 16) / longLen;
+  // note: 16 bits of fraction do not leave enough room in 32 bits
+  const int64_t decInc = (longLen == 0) ? 0 : (int64_t(shortLen) * 65536) / longLen;
+  int64_t j = 0;
   if (yLonger) {
-    for (int32_t i = 0, j = 0; i != endVal; i += incrementVal, j += decInc) {
-      plot(x + (j >> 16), y + i);
+    for (int32_t i = 0; i != endVal; i += incrementVal, j += decInc) {
+      plot(x + int32_t(j >> 16), y + i);
     }
   } else {
-    for (int32_t i = 0, j = 0; i != endVal; i += incrementVal, j += decInc) {
-      plot(x + i, y + (j >> 16));
+    for (int32_t i = 0; i != endVal; i += incrementVal, j += decInc) {
+      plot(x + i, y + int32_t(j >> 16));
     }
   }
 }
-- 
2.43.0


From d5aa92d10df4159b69671f616ad6f53bcfb431ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:32 +0000
Subject: [PATCH 47/49] fix: a thread that is prepared again forgets its wait,
 line and call

---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 1a97e31..8daa43f 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -692,6 +692,10 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   finished_ = true;
   cycles_ = 0;
   halted_ = false;
+  // forget what this thread did before
+  called_ = false;
+  waits = 0;
+  last_line_ = line_t{};
 
   stack_.clear();
   f_.clear();
-- 
2.43.0


From e39f8fb00ac11e6c85d1ff5fa64dc47a9e3bbb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:08 +0000
Subject: [PATCH 48/49] fix: the graphics runner does not go on after a failed
 initialisation

---
 source/driver_sdl/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 0952fbb..2cc2f1d 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -398,6 +398,7 @@ int main(int argc, char **argv) {
 
   if (!vm.call_init()) {
     fprintf(stderr, "failed while executing @init\n");
+    exit(1);
   }
 
   if (!vm.new_thread(*func, 0, nullptr)) {
-- 
2.43.0


From 18064d6c7683647f5d481aff6d17a1884b084382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:37 +0000
Subject: [PATCH 49/49] fix: strings are compared beyond a zero byte

---
 source/lib_vm/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 8daa43f..1536a3b 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -314,7 +314,8 @@ void thread_t::do_INS_EQ_() {
       r->is_a<val_type_string>()) {
     int32_t res = 0;
     if (l->strlen() == r->strlen()) {
-      if (strcmp(l->string(), r->string()) == 0) {
+      // note: strings made by the host can contain '\0'
+      if (memcmp(l->string(), r->string(), l->strlen()) == 0) {
         res = 1;
       }
     }
-- 
2.43.0

