From 5fb4a95450f73044c951cf1f4c55637c0fb9097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 1/5] fix: wait for an entry that is being inserted before
 Store or LoadOrStore uses it

Store, LoadOrStore and LoadOrStoreLazy returned as soon as they met a node of
the key, even if its insertion was not finished. Load, Range, Delete and
LoadAndDelete ignore such a node, so a goroutine could miss the key it had just
stored or loaded.
---
 gen_func.go        | 24 ++++++++++++++++++------
 gen_int.go         | 24 ++++++++++++++++++------
 gen_int32.go       | 24 ++++++++++++++++++------
 gen_int32desc.go   | 24 ++++++++++++++++++------
 gen_int64.go       | 24 ++++++++++++++++++------
 gen_int64desc.go   | 24 ++++++++++++++++++------
 gen_intdesc.go     | 24 ++++++++++++++++++------
 gen_ordered.go     | 24 ++++++++++++++++++------
 gen_ordereddesc.go | 24 ++++++++++++++++++------
 gen_string.go      | 24 ++++++++++++++++++------
 gen_stringdesc.go  | 24 ++++++++++++++++++------
 gen_uint.go        | 24 ++++++++++++++++++------
 gen_uint32.go      | 24 ++++++++++++++++++------
 gen_uint32desc.go  | 24 ++++++++++++++++++------
 gen_uint64.go      | 24 ++++++++++++++++++------
 gen_uint64desc.go  | 24 ++++++++++++++++++------
 gen_uintdesc.go    | 24 ++++++++++++++++++------
 skipmap.tpl        | 24 ++++++++++++++++++------
 18 files changed, 324 insertions(+), 108 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 8653cae..d558304 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -123,9 +123,13 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -289,9 +293,13 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -359,9 +367,13 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_int.go b/gen_int.go
index d833df1..54da865 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -121,9 +121,13 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_int32.go b/gen_int32.go
index 0e934b6..2347a34 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -121,9 +121,13 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 40d61e1..2652c45 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -121,9 +121,13 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_int64.go b/gen_int64.go
index e089813..1c0bce5 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -121,9 +121,13 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 3fa40fa..418c505 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -121,9 +121,13 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_intdesc.go b/gen_intdesc.go
index eb274b5..61801d5 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -121,9 +121,13 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_ordered.go b/gen_ordered.go
index c1c5abb..0a0ced1 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -121,9 +121,13 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 6a944f9..a5f2eb4 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -121,9 +121,13 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_string.go b/gen_string.go
index 6e46134..fd68875 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -121,9 +121,13 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index b28a632..763b605 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -121,9 +121,13 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_uint.go b/gen_uint.go
index d266c27..722e578 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -121,9 +121,13 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_uint32.go b/gen_uint32.go
index 648c8e1..15d26c2 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -121,9 +121,13 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index c994276..80c0eba 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -121,9 +121,13 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_uint64.go b/gen_uint64.go
index e29247f..4dd66bf 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -121,9 +121,13 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 9d24953..8adf0a7 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -121,9 +121,13 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 106d4e5..c233036 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -121,9 +121,13 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -287,9 +291,13 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -357,9 +365,13 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
diff --git a/skipmap.tpl b/skipmap.tpl
index 0f6aea7..f745d1b 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -120,9 +120,13 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+				// The node is fully linked, just replace the value.
 				nodeFound.storeVal(value)
 				return
 			}
@@ -286,9 +290,13 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
@@ -356,9 +364,13 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
+			if !nodeFound.flags.Get(fullyLinked) {
+				// The node is being inserted by another goroutine. Load, Range and Delete
+				// don't see it until it is fully linked, so we need to wait for it.
+				continue
+			}
 			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+				// The node is fully linked, just return the value.
 				return nodeFound.loadVal(), true
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
-- 
2.43.0


From 6d5f73038683f02e7ecfa35d5e587a688ea7dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 2/5] fix: Store no longer loses its value to a concurrent
 LoadAndDelete

Store checked that the node was not marked and then replaced the value. A
LoadAndDelete in between returned the old value and removed the node, so that
the completed Store was visible to nobody.
---
 gen_func.go        | 33 ++++++++++++++++++++++++++++++---
 gen_int.go         | 33 ++++++++++++++++++++++++++++++---
 gen_int32.go       | 33 ++++++++++++++++++++++++++++++---
 gen_int32desc.go   | 33 ++++++++++++++++++++++++++++++---
 gen_int64.go       | 33 ++++++++++++++++++++++++++++++---
 gen_int64desc.go   | 33 ++++++++++++++++++++++++++++++---
 gen_intdesc.go     | 33 ++++++++++++++++++++++++++++++---
 gen_ordered.go     | 33 ++++++++++++++++++++++++++++++---
 gen_ordereddesc.go | 33 ++++++++++++++++++++++++++++++---
 gen_string.go      | 33 ++++++++++++++++++++++++++++++---
 gen_stringdesc.go  | 33 ++++++++++++++++++++++++++++++---
 gen_uint.go        | 33 ++++++++++++++++++++++++++++++---
 gen_uint32.go      | 33 ++++++++++++++++++++++++++++++---
 gen_uint32desc.go  | 33 ++++++++++++++++++++++++++++++---
 gen_uint64.go      | 33 ++++++++++++++++++++++++++++++---
 gen_uint64desc.go  | 33 ++++++++++++++++++++++++++++++---
 gen_uintdesc.go    | 33 ++++++++++++++++++++++++++++++---
 skipmap.tpl        | 33 ++++++++++++++++++++++++++++++---
 18 files changed, 540 insertions(+), 54 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index d558304..97aa667 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -46,6 +46,32 @@ func (n *funcnode[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *funcnode[keyT, valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *funcnode[keyT, valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *funcnode[keyT, valueT]) loadNext(i int) *funcnode[keyT, valueT] {
 	return (*funcnode[keyT, valueT])(n.next.load(i))
 }
@@ -130,8 +156,9 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -274,7 +301,7 @@ func (s *FuncMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockfunc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_int.go b/gen_int.go
index 54da865..01b5009 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -44,6 +44,32 @@ func (n *intnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *intnode[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *intnode[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *intnode[valueT]) loadNext(i int) *intnode[valueT] {
 	return (*intnode[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *IntMap[valueT]) LoadAndDelete(key int) (value valueT, loaded bool) {
 			nodeToDelete.mu.Unlock()
 			unlockint(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_int32.go b/gen_int32.go
index 2347a34..1ea3397 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -44,6 +44,32 @@ func (n *int32node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *int32node[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *int32node[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *int32node[valueT]) loadNext(i int) *int32node[valueT] {
 	return (*int32node[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *Int32Map[valueT]) LoadAndDelete(key int32) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockint32(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 2652c45..07cd176 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -44,6 +44,32 @@ func (n *int32nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *int32nodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *int32nodeDesc[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *int32nodeDesc[valueT]) loadNext(i int) *int32nodeDesc[valueT] {
 	return (*int32nodeDesc[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *Int32MapDesc[valueT]) LoadAndDelete(key int32) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockint32Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_int64.go b/gen_int64.go
index 1c0bce5..6ed69b9 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -44,6 +44,32 @@ func (n *int64node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *int64node[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *int64node[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *int64node[valueT]) loadNext(i int) *int64node[valueT] {
 	return (*int64node[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *Int64Map[valueT]) LoadAndDelete(key int64) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockint64(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 418c505..4352d48 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -44,6 +44,32 @@ func (n *int64nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *int64nodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *int64nodeDesc[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *int64nodeDesc[valueT]) loadNext(i int) *int64nodeDesc[valueT] {
 	return (*int64nodeDesc[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *Int64MapDesc[valueT]) LoadAndDelete(key int64) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockint64Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 61801d5..3291ecb 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -44,6 +44,32 @@ func (n *intnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *intnodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *intnodeDesc[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *intnodeDesc[valueT]) loadNext(i int) *intnodeDesc[valueT] {
 	return (*intnodeDesc[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *IntMapDesc[valueT]) LoadAndDelete(key int) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockintDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_ordered.go b/gen_ordered.go
index 0a0ced1..739c762 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -44,6 +44,32 @@ func (n *orderednode[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *orderednode[keyT, valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *orderednode[keyT, valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *orderednode[keyT, valueT]) loadNext(i int) *orderednode[keyT, valueT] {
 	return (*orderednode[keyT, valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *OrderedMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockordered(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index a5f2eb4..c982366 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -44,6 +44,32 @@ func (n *orderednodeDesc[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *orderednodeDesc[keyT, valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *orderednodeDesc[keyT, valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *orderednodeDesc[keyT, valueT]) loadNext(i int) *orderednodeDesc[keyT, valueT] {
 	return (*orderednodeDesc[keyT, valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, lo
 			nodeToDelete.mu.Unlock()
 			unlockorderedDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_string.go b/gen_string.go
index fd68875..e3c2c36 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -44,6 +44,32 @@ func (n *stringnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *stringnode[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *stringnode[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *stringnode[valueT]) loadNext(i int) *stringnode[valueT] {
 	return (*stringnode[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *StringMap[valueT]) LoadAndDelete(key string) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockstring(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 763b605..01f650d 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -44,6 +44,32 @@ func (n *stringnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *stringnodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *stringnodeDesc[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *stringnodeDesc[valueT]) loadNext(i int) *stringnodeDesc[valueT] {
 	return (*stringnodeDesc[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *StringMapDesc[valueT]) LoadAndDelete(key string) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockstringDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_uint.go b/gen_uint.go
index 722e578..2051d85 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -44,6 +44,32 @@ func (n *uintnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *uintnode[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *uintnode[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uintnode[valueT]) loadNext(i int) *uintnode[valueT] {
 	return (*uintnode[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *UintMap[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool) {
 			nodeToDelete.mu.Unlock()
 			unlockuint(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_uint32.go b/gen_uint32.go
index 15d26c2..1980942 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -44,6 +44,32 @@ func (n *uint32node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *uint32node[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *uint32node[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uint32node[valueT]) loadNext(i int) *uint32node[valueT] {
 	return (*uint32node[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *Uint32Map[valueT]) LoadAndDelete(key uint32) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuint32(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index 80c0eba..3021cff 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -44,6 +44,32 @@ func (n *uint32nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *uint32nodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *uint32nodeDesc[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uint32nodeDesc[valueT]) loadNext(i int) *uint32nodeDesc[valueT] {
 	return (*uint32nodeDesc[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *Uint32MapDesc[valueT]) LoadAndDelete(key uint32) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockuint32Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_uint64.go b/gen_uint64.go
index 4dd66bf..f2cee23 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -44,6 +44,32 @@ func (n *uint64node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *uint64node[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *uint64node[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uint64node[valueT]) loadNext(i int) *uint64node[valueT] {
 	return (*uint64node[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *Uint64Map[valueT]) LoadAndDelete(key uint64) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuint64(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 8adf0a7..23fdbed 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -44,6 +44,32 @@ func (n *uint64nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *uint64nodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *uint64nodeDesc[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uint64nodeDesc[valueT]) loadNext(i int) *uint64nodeDesc[valueT] {
 	return (*uint64nodeDesc[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *Uint64MapDesc[valueT]) LoadAndDelete(key uint64) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockuint64Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index c233036..aa15985 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -44,6 +44,32 @@ func (n *uintnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *uintnodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *uintnodeDesc[valueT]) finalVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uintnodeDesc[valueT]) loadNext(i int) *uintnodeDesc[valueT] {
 	return (*uintnodeDesc[valueT])(n.next.load(i))
 }
@@ -128,8 +154,9 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -272,7 +299,7 @@ func (s *UintMapDesc[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuintDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
diff --git a/skipmap.tpl b/skipmap.tpl
index f745d1b..fb6c853 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -43,6 +43,32 @@ func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) loadVal() {
 	return *(*{{.ValueType}})(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a fully linked node.
+// It returns false if the node is marked, the value is not replaced in this case.
+func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) replaceVal(value {{.ValueType}}) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if n.flags.Get(marked) {
+			return false
+		}
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// finalVal returns the last value of a marked node. The value is moved to a new place, so that
+// a replaceVal which began before the node was marked can't replace it anymore.
+func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) finalVal() {{.ValueType}} {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*{{.ValueType}})(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) loadNext(i int) *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}} {
 	return (*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}})(n.next.load(i))
 }
@@ -127,8 +153,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 			}
 			if !nodeFound.flags.Get(marked) {
 				// The node is fully linked, just replace the value.
-				nodeFound.storeVal(value)
-				return
+				if nodeFound.replaceVal(value) {
+					return
+				}
 			}
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
@@ -271,7 +298,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadAndDelete(k
 			nodeToDelete.mu.Unlock()
 			unlock{{.Name}}(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.finalVal(), true
 		}
 		return
 	}
-- 
2.43.0


From 7f15701cf280913c7e2b5dac45ab074187cfca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 3/5] fix: Len is never negative

An insertion was counted after its node could already be deleted, so that a
concurrent Len could see the decrement of the deletion first.
---
 gen_func.go        | 6 +++---
 gen_int.go         | 6 +++---
 gen_int32.go       | 6 +++---
 gen_int32desc.go   | 6 +++---
 gen_int64.go       | 6 +++---
 gen_int64desc.go   | 6 +++---
 gen_intdesc.go     | 6 +++---
 gen_ordered.go     | 6 +++---
 gen_ordereddesc.go | 6 +++---
 gen_string.go      | 6 +++---
 gen_stringdesc.go  | 6 +++---
 gen_uint.go        | 6 +++---
 gen_uint32.go      | 6 +++---
 gen_uint32desc.go  | 6 +++---
 gen_uint64.go      | 6 +++---
 gen_uint64desc.go  | 6 +++---
 gen_uintdesc.go    | 6 +++---
 skipmap.tpl        | 6 +++---
 18 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 97aa667..91b09e8 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -195,9 +195,9 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -374,9 +374,9 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -448,9 +448,9 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int.go b/gen_int.go
index 01b5009..2fefd48 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -193,9 +193,9 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int32.go b/gen_int32.go
index 1ea3397..7fea8eb 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -193,9 +193,9 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 07cd176..e693db4 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -193,9 +193,9 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int64.go b/gen_int64.go
index 6ed69b9..9179027 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -193,9 +193,9 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 4352d48..532497c 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -193,9 +193,9 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 3291ecb..d6cd0d4 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -193,9 +193,9 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_ordered.go b/gen_ordered.go
index 739c762..411832b 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -193,9 +193,9 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index c982366..31dc332 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -193,9 +193,9 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_string.go b/gen_string.go
index e3c2c36..241d714 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -193,9 +193,9 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 01f650d..b0e4725 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -193,9 +193,9 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint.go b/gen_uint.go
index 2051d85..7202484 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -193,9 +193,9 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint32.go b/gen_uint32.go
index 1980942..67315f1 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -193,9 +193,9 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index 3021cff..80f81ea 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -193,9 +193,9 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint64.go b/gen_uint64.go
index f2cee23..4410535 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -193,9 +193,9 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 23fdbed..adc4bb9 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -193,9 +193,9 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index aa15985..c3bd76b 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -193,9 +193,9 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -372,9 +372,9 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -446,9 +446,9 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/skipmap.tpl b/skipmap.tpl
index fb6c853..cea0864 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -192,9 +192,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -371,9 +371,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -445,9 +445,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
-- 
2.43.0


From 6339c7fff5972debcb9cbfb71f55c6c7238f3919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 4/5] fix: LoadOrStoreLazy releases its locks if f panics

A panic or runtime.Goexit in f left the predecessor nodes locked forever, so
that later updates next to the key blocked.
---
 gen_func.go        | 15 ++++++++++++++-
 gen_int.go         | 15 ++++++++++++++-
 gen_int32.go       | 15 ++++++++++++++-
 gen_int32desc.go   | 15 ++++++++++++++-
 gen_int64.go       | 15 ++++++++++++++-
 gen_int64desc.go   | 15 ++++++++++++++-
 gen_intdesc.go     | 15 ++++++++++++++-
 gen_ordered.go     | 15 ++++++++++++++-
 gen_ordereddesc.go | 15 ++++++++++++++-
 gen_string.go      | 15 ++++++++++++++-
 gen_stringdesc.go  | 15 ++++++++++++++-
 gen_uint.go        | 15 ++++++++++++++-
 gen_uint32.go      | 15 ++++++++++++++-
 gen_uint32desc.go  | 15 ++++++++++++++-
 gen_uint64.go      | 15 ++++++++++++++-
 gen_uint64desc.go  | 15 ++++++++++++++-
 gen_uintdesc.go    | 15 ++++++++++++++-
 skipmap.tpl        | 15 ++++++++++++++-
 18 files changed, 252 insertions(+), 18 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 91b09e8..718936d 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -142,6 +142,19 @@ func unlockfunc[keyT any, valueT any](preds [maxLevel]*funcnode[keyT, valueT], h
 	}
 }
 
+// callLazyfunc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyfunc[keyT any, valueT any](f func() valueT, preds *[maxLevel]*funcnode[keyT, valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockfunc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -442,7 +455,7 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 			unlockfunc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyfunc(f, &preds, highestLocked)
 		nn := newFuncNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int.go b/gen_int.go
index 2fefd48..ab35365 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -140,6 +140,19 @@ func unlockint[valueT any](preds [maxLevel]*intnode[valueT], highestLevel int) {
 	}
 }
 
+// callLazyint returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyint[valueT any](f func() valueT, preds *[maxLevel]*intnode[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *IntMap[valueT]) Store(key int, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 			unlockint(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyint(f, &preds, highestLocked)
 		nn := newIntNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int32.go b/gen_int32.go
index 7fea8eb..0a00403 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -140,6 +140,19 @@ func unlockint32[valueT any](preds [maxLevel]*int32node[valueT], highestLevel in
 	}
 }
 
+// callLazyint32 returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyint32[valueT any](f func() valueT, preds *[maxLevel]*int32node[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint32(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 			unlockint32(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyint32(f, &preds, highestLocked)
 		nn := newInt32Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int32desc.go b/gen_int32desc.go
index e693db4..aaba9e9 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -140,6 +140,19 @@ func unlockint32Desc[valueT any](preds [maxLevel]*int32nodeDesc[valueT], highest
 	}
 }
 
+// callLazyint32Desc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyint32Desc[valueT any](f func() valueT, preds *[maxLevel]*int32nodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint32Desc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 			unlockint32Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyint32Desc(f, &preds, highestLocked)
 		nn := newInt32NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int64.go b/gen_int64.go
index 9179027..209f888 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -140,6 +140,19 @@ func unlockint64[valueT any](preds [maxLevel]*int64node[valueT], highestLevel in
 	}
 }
 
+// callLazyint64 returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyint64[valueT any](f func() valueT, preds *[maxLevel]*int64node[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint64(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 			unlockint64(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyint64(f, &preds, highestLocked)
 		nn := newInt64Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 532497c..8053c32 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -140,6 +140,19 @@ func unlockint64Desc[valueT any](preds [maxLevel]*int64nodeDesc[valueT], highest
 	}
 }
 
+// callLazyint64Desc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyint64Desc[valueT any](f func() valueT, preds *[maxLevel]*int64nodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint64Desc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 			unlockint64Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyint64Desc(f, &preds, highestLocked)
 		nn := newInt64NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_intdesc.go b/gen_intdesc.go
index d6cd0d4..f3a9fa7 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -140,6 +140,19 @@ func unlockintDesc[valueT any](preds [maxLevel]*intnodeDesc[valueT], highestLeve
 	}
 }
 
+// callLazyintDesc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyintDesc[valueT any](f func() valueT, preds *[maxLevel]*intnodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockintDesc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 			unlockintDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyintDesc(f, &preds, highestLocked)
 		nn := newIntNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_ordered.go b/gen_ordered.go
index 411832b..e0da1e2 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -140,6 +140,19 @@ func unlockordered[keyT ordered, valueT any](preds [maxLevel]*orderednode[keyT,
 	}
 }
 
+// callLazyordered returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyordered[keyT ordered, valueT any](f func() valueT, preds *[maxLevel]*orderednode[keyT, valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockordered(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 			unlockordered(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyordered(f, &preds, highestLocked)
 		nn := newOrderedNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 31dc332..4fc7ccc 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -140,6 +140,19 @@ func unlockorderedDesc[keyT ordered, valueT any](preds [maxLevel]*orderednodeDes
 	}
 }
 
+// callLazyorderedDesc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyorderedDesc[keyT ordered, valueT any](f func() valueT, preds *[maxLevel]*orderednodeDesc[keyT, valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockorderedDesc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 			unlockorderedDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyorderedDesc(f, &preds, highestLocked)
 		nn := newOrderedNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_string.go b/gen_string.go
index 241d714..42c5f10 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -140,6 +140,19 @@ func unlockstring[valueT any](preds [maxLevel]*stringnode[valueT], highestLevel
 	}
 }
 
+// callLazystring returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazystring[valueT any](f func() valueT, preds *[maxLevel]*stringnode[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockstring(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *StringMap[valueT]) Store(key string, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 			unlockstring(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazystring(f, &preds, highestLocked)
 		nn := newStringNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index b0e4725..d0638da 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -140,6 +140,19 @@ func unlockstringDesc[valueT any](preds [maxLevel]*stringnodeDesc[valueT], highe
 	}
 }
 
+// callLazystringDesc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazystringDesc[valueT any](f func() valueT, preds *[maxLevel]*stringnodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockstringDesc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 			unlockstringDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazystringDesc(f, &preds, highestLocked)
 		nn := newStringNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint.go b/gen_uint.go
index 7202484..9df32da 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -140,6 +140,19 @@ func unlockuint[valueT any](preds [maxLevel]*uintnode[valueT], highestLevel int)
 	}
 }
 
+// callLazyuint returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyuint[valueT any](f func() valueT, preds *[maxLevel]*uintnode[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 			unlockuint(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyuint(f, &preds, highestLocked)
 		nn := newUintNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint32.go b/gen_uint32.go
index 67315f1..68d1758 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -140,6 +140,19 @@ func unlockuint32[valueT any](preds [maxLevel]*uint32node[valueT], highestLevel
 	}
 }
 
+// callLazyuint32 returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyuint32[valueT any](f func() valueT, preds *[maxLevel]*uint32node[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint32(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 			unlockuint32(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyuint32(f, &preds, highestLocked)
 		nn := newUint32Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index 80f81ea..7939453 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -140,6 +140,19 @@ func unlockuint32Desc[valueT any](preds [maxLevel]*uint32nodeDesc[valueT], highe
 	}
 }
 
+// callLazyuint32Desc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyuint32Desc[valueT any](f func() valueT, preds *[maxLevel]*uint32nodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint32Desc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 			unlockuint32Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyuint32Desc(f, &preds, highestLocked)
 		nn := newUint32NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint64.go b/gen_uint64.go
index 4410535..5c43f68 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -140,6 +140,19 @@ func unlockuint64[valueT any](preds [maxLevel]*uint64node[valueT], highestLevel
 	}
 }
 
+// callLazyuint64 returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyuint64[valueT any](f func() valueT, preds *[maxLevel]*uint64node[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint64(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 			unlockuint64(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyuint64(f, &preds, highestLocked)
 		nn := newUint64Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index adc4bb9..ddb3e1f 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -140,6 +140,19 @@ func unlockuint64Desc[valueT any](preds [maxLevel]*uint64nodeDesc[valueT], highe
 	}
 }
 
+// callLazyuint64Desc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyuint64Desc[valueT any](f func() valueT, preds *[maxLevel]*uint64nodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint64Desc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 			unlockuint64Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyuint64Desc(f, &preds, highestLocked)
 		nn := newUint64NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index c3bd76b..8f1b324 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -140,6 +140,19 @@ func unlockuintDesc[valueT any](preds [maxLevel]*uintnodeDesc[valueT], highestLe
 	}
 }
 
+// callLazyuintDesc returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazyuintDesc[valueT any](f func() valueT, preds *[maxLevel]*uintnodeDesc[valueT], highestLocked int) (value valueT) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuintDesc(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	level := s.randomlevel()
@@ -440,7 +453,7 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 			unlockuintDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazyuintDesc(f, &preds, highestLocked)
 		nn := newUintNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/skipmap.tpl b/skipmap.tpl
index cea0864..9208d5d 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -139,6 +139,19 @@ func unlock{{.Name}}{{.TypeParam}}(preds [maxLevel]*{{.StructPrefixLow}}node{{.S
 	}
 }
 
+// callLazy{{.Name}} returns the result of f, it unlocks the preds if f panics or exits the goroutine.
+func callLazy{{.Name}}{{.TypeParam}}(f func() {{.ValueType}}, preds *[maxLevel]*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}, highestLocked int) (value {{.ValueType}}) {
+	returned := false
+	defer func() {
+		if !returned {
+			unlock{{.Name}}(*preds, highestLocked)
+		}
+	}()
+	value = f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.KeyType}}, value {{.ValueType}}) {
 	level := s.randomlevel()
@@ -439,7 +452,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 			unlock{{.Name}}(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callLazy{{.Name}}(f, &preds, highestLocked)
 		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
-- 
2.43.0


From 2b08b79cb21073d91e40735cac69613f5bd94206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 5/5] fix: New and NewDesc handle NaN keys like NewFloat64

A NaN key was never found again and hid every other key behind it. As in
NewFloat64 and NewFloat64Desc, all NaNs are one key and it comes first.
---
 gen.go             |  8 ++++----
 gen_ordered.go     | 12 ++++++------
 gen_ordereddesc.go | 12 ++++++------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/gen.go b/gen.go
index 2c57612..ca1b272 100644
--- a/gen.go
+++ b/gen.go
@@ -71,10 +71,10 @@ func main() {
 		StructSuffix:    "",
 		Funcs: template.FuncMap{
 			"Less": func(i, j string) string {
-				return fmt.Sprintf("(%s < %s)", i, j)
+				return fmt.Sprintf("(%s < %s || (%s != %s && %s == %s))", i, j, i, i, j, j) // NaN first
 			},
 			"Equal": func(i, j string) string {
-				return fmt.Sprintf("%s == %s", i, j)
+				return fmt.Sprintf("(%s == %s || (%s != %s && %s != %s))", i, j, i, i, j, j)
 			},
 		},
 	}
@@ -84,10 +84,10 @@ func main() {
 	base.Path = "gen_ordereddesc.go"
 	base.Funcs = template.FuncMap{
 		"Less": func(i, j string) string {
-			return fmt.Sprintf("(%s > %s)", i, j)
+			return fmt.Sprintf("(%s > %s || (%s != %s && %s == %s))", i, j, i, i, j, j) // NaN first
 		},
 		"Equal": func(i, j string) string {
-			return fmt.Sprintf("%s == %s", i, j)
+			return fmt.Sprintf("(%s == %s || (%s != %s && %s != %s))", i, j, i, i, j, j)
 		},
 	}
 	generate(base)
diff --git a/gen_ordered.go b/gen_ordered.go
index e0da1e2..1ea0a2e 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -93,7 +93,7 @@ func (s *OrderedMap[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orderedn
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key < key) {
+		for succ != nil && (succ.key < key || (succ.key != succ.key && key == key)) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -101,7 +101,7 @@ func (s *OrderedMap[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orderedn
 		succs[i] = succ
 
 		// Check if the key already in the skipmap.
-		if succ != nil && succ.key == key {
+		if succ != nil && (succ.key == key || (succ.key != succ.key && key != key)) {
 			return succ
 		}
 	}
@@ -115,7 +115,7 @@ func (s *OrderedMap[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel]*or
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key < key) {
+		for succ != nil && (succ.key < key || (succ.key != succ.key && key == key)) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -123,7 +123,7 @@ func (s *OrderedMap[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel]*or
 		succs[i] = succ
 
 		// Check if the key already in the skip list.
-		if lFound == -1 && succ != nil && succ.key == key {
+		if lFound == -1 && succ != nil && (succ.key == key || (succ.key != succ.key && key != key)) {
 			lFound = i
 		}
 	}
@@ -237,13 +237,13 @@ func (s *OrderedMap[keyT, valueT]) Load(key keyT) (value valueT, ok bool) {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.key < key) {
+		for nex != nil && (nex.key < key || (nex.key != nex.key && key == key)) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the key already in the skip list.
-		if nex != nil && nex.key == key {
+		if nex != nil && (nex.key == key || (nex.key != nex.key && key != key)) {
 			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nex.loadVal(), true
 			}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 4fc7ccc..597153f 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -93,7 +93,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orde
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key > key) {
+		for succ != nil && (succ.key > key || (succ.key != succ.key && key == key)) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -101,7 +101,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orde
 		succs[i] = succ
 
 		// Check if the key already in the skipmap.
-		if succ != nil && succ.key == key {
+		if succ != nil && (succ.key == key || (succ.key != succ.key && key != key)) {
 			return succ
 		}
 	}
@@ -115,7 +115,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key > key) {
+		for succ != nil && (succ.key > key || (succ.key != succ.key && key == key)) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -123,7 +123,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel
 		succs[i] = succ
 
 		// Check if the key already in the skip list.
-		if lFound == -1 && succ != nil && succ.key == key {
+		if lFound == -1 && succ != nil && (succ.key == key || (succ.key != succ.key && key != key)) {
 			lFound = i
 		}
 	}
@@ -237,13 +237,13 @@ func (s *OrderedMapDesc[keyT, valueT]) Load(key keyT) (value valueT, ok bool) {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.key > key) {
+		for nex != nil && (nex.key > key || (nex.key != nex.key && key == key)) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the key already in the skip list.
-		if nex != nil && nex.key == key {
+		if nex != nil && (nex.key == key || (nex.key != nex.key && key != key)) {
 			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nex.loadVal(), true
 			}
-- 
2.43.0

