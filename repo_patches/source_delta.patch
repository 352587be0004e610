From 0b9b41488083e31b72d1c9bf76fe1c1d32be8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 01/29] fix: get() no longer answers an absent key with another
 key's value

When the searched path ended inside a leaf or on a branch without a value,
get() returned that node's data instead of raising KeyNotFoundError.
---
 src/pymt/mpt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac276a5..d27e869 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -588,9 +588,11 @@ class MPT:
         """
         node = self._get_node(node_ref)
 
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
+        # If path is empty, our travel is over. Only a branch that has a value
+        # (or a leaf without a path, see below) holds the searched key.
+        if len(path) == 0 and type(node) is Branch:
+            if len(node.data) == 0:
+                raise KeyNotFoundError("Branch node has no value")
             return node
 
         if type(node) is Leaf:
-- 
2.43.0


From 08cb34354062a579aa36197ad28e9b13770b0c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 02/29] fix: contains() no longer reports an absent key below a
 branch that has a value

A search that stops at an empty slot of a branch holding the value of a
shorter key answered True.
---
 src/pymt/mpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index d27e869..d404627 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -208,9 +208,10 @@ class MPT:
         path = NibblePath(key)
         node = self._contains(self._root, path)
 
-        # If the node is a branch check if it has a value
+        # If the node is a branch check if it has a value. A branch where the
+        # search stopped early holds the value of another (shorter) key.
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return True
             else:
                 return False
-- 
2.43.0


From bf9853ea2d79e8f89fb016c0a665efa0ffd283c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 03/29] fix: no proof of inclusion is made or accepted for a
 key that is not in the trie

When the key's path ended inside a leaf or on a branch without a value a
proof was produced and verified.
---
 src/pymt/mpt.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index d404627..d1245af 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -708,9 +708,11 @@ class MPT:
 
         # print(type(node))
 
-        if len(path) == 0:
+        if len(path) == 0 and type(node) is Branch:
             # If path is empty, we've found the node.
-            # The node doesnt have to be a leaf.
+            # The node doesnt have to be a leaf, but a branch needs a value.
+            if len(node.data) == 0:
+                raise BranchPathError("Branch node has no value")
             proof.append(node.encode())
             return proof
 
@@ -799,19 +801,15 @@ class MPT:
         else:
             node = node_ref
 
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
+        # If path is empty, our travel is over. The key is only in the trie
+        # if this node holds its value.
         if len(path) == 0:
-            # check extension and node, leaf already handeled
+            # check extension and node, leaf is handeled below
             if isinstance(node, Extension):
                 return False
             if isinstance(node, Branch):
                 # Check if the branch has data
-                if node.data != None:
-                    return True
-                else:
-                    return False
-            return True
+                return len(node.data) != 0
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From daa0fd725b7c120cf902ea37e5bd55065cd9e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 04/29] fix: verify_proof_of_inclusion() accepts honest proofs
 of tries with a small root node

The proof carries root(), which is the root node itself (not its hash) when
the node is shorter than 32 bytes.
---
 src/pymt/mpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index d1245af..692e552 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -355,8 +355,9 @@ class MPT:
         valid = self._verify_proof_of_inclusion(
             self._root, NibblePath(proof.target_key), proof_storage
         )
-        # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
+        # Check if the current trie hash is the sam as the proof root. The proof
+        # holds the root node itself if that is too small to be hashed.
+        if valid and proof.trie_root in (self.root(), self.root_hash()):
             return True
         else:
             return False
-- 
2.43.0


From 935434469e7a245151a500895326e4d062811094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 05/29] fix: get_proof_of_exclusion() makes complete proofs

It left out the extension node where the paths part and refused keys that
end at an empty slot of a branch that has a value.
---
 src/pymt/mpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 692e552..6300899 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -403,10 +403,10 @@ class MPT:
         # Add a leaf node with the key to the proof
         proof_list.append(Leaf(path, b"null").encode())
 
-        # If the node is a branch check if i thas a value
+        # If the path ends at the branch check if it has a value
         # Can be None or b'' (b'' is used when trie is in secure mode)
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 raise PoeError("This should never happen")
 
         # If the node is a leaf the key is in the trie
@@ -899,6 +899,7 @@ class MPT:
                 proof.append(node.encode())
                 return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
             else:
+                proof.append(node.encode())
                 return node, proof
 
         elif type(node) is Branch:
-- 
2.43.0


From 714455c347c19248be6141e9be2e89bd2d496377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 06/29] fix: verify_proof_of_exclusion() rejects proofs for
 keys that are in the trie

A truncated node list, a leaf that holds the key and a branch that holds the
key's value were all accepted as a proof of exclusion.
---
 src/pymt/mpt.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 6300899..59a0844 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -467,24 +467,29 @@ class MPT:
             # print(type(encoded_node))
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
+        # The part of the path that is left after the walk
+        path = NibblePath(proof.target_key)
         node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), NibblePath(proof.target_key), proof_storage
+            self.root(), path, proof_storage
         )
 
+        # A node on the path is missing from the proof
+        if node is None:
+            return False
+
         # There should be no keys left in the proof
         if len(keys_left.keys()) != 0:
             return False
 
         # Check if the result node is valid
-        # If the node is a branch check if it has a value
+        # If the path ends at a branch that has a value the key is in the trie
         if isinstance(node, Branch):
-            if node.data == None:
+            if len(path) == 0 and len(node.data) != 0:
                 return False
 
-        # If the node is a leaf the key is in the trie
-
+        # If the rest of the path is that of the leaf the key is in the trie
         if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
+            if node.path == path:
                 return False
 
         # Proof passed
@@ -919,7 +924,7 @@ class MPT:
         node_ref: Union[bytes, Leaf, Branch, Extension],
         path: NibblePath,
         proof_storage: dict,
-    ) -> Tuple[bool, dict]:
+    ) -> Tuple[Optional[Node], dict]:
         """
         Verify proof of exclusion support method.
 
@@ -936,8 +941,8 @@ class MPT:
 
         Returns
         -------
-        bool, node_ref
-            True if this the last node in the proof, the next node ref otherwise.
+        Node or None
+            The node where the walk ended, None if it is missing from the proof.
         proof_storage: dict
             Dictionary with nodes.
 
@@ -959,12 +964,8 @@ class MPT:
                 try:
                     raw_node = proof_storage[node_ref]
                 except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
+                    # Without this node nothing is known about the key
+                    return None, proof_storage
             else:
                 raw_node = node_ref
             node = Node.decode(raw_node)
-- 
2.43.0


From dcdcde390923bf0dbad75cd06abf707ecf58b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 07/29] fix: hash() and == work on MPT

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 59a0844..170b488 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -98,7 +98,7 @@ class MPT:
         self.delete(encoded_key)
 
     def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
+        return int(keccak_hash(self.root_hash(), hexdigest=True), 16)
 
     def __eq__(self, other: "MPT") -> bool:
         if not isinstance(other, MPT):
-- 
2.43.0


From 1db7ab80e19f02a52405cd57ab53ba69ea65c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 08/29] fix: encode() works on a trie whose last key was
 deleted

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 170b488..fa3ec50 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -501,7 +501,7 @@ class MPT:
         storage_list = [
             _prepare_reference_for_encoding(node) for node in self._storage.values()
         ]
-        content = [self.root(), storage_list, self._secure]
+        content = [self.root() or Node.EMPTY_HASH, storage_list, self._secure]
         return rlp.encode(content)
 
     @staticmethod
-- 
2.43.0


From 07b2ed8808c8a00a304c1971c41a22c78d6458ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 09/29] fix: SparseEMPT.get_root_trie() works

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9e7c459..dc71d9e 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -479,7 +479,7 @@ class SparseEMPT:
 
         The root trie is a trie that only contains the root of the trie.
         """
-        return RootEMPT(mode=b"ROOT", secure=self._trie.secure, root=self._trie.root())
+        return RootEMPT(secure=self._trie.secure, root=self._trie.root())
 
     # TRIE METHODS
     def get_reference(self, key: bytes) -> DataReference:
-- 
2.43.0


From aede93dedc6083fb48953fecf084d863e091144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 10/29] fix: SparseEMPT.update() accepts objects that can be
 encoded

---
 src/pymt/empt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index dc71d9e..91f6eec 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -511,13 +511,13 @@ class SparseEMPT:
             have a .encode_rlp() and .decode_rlp() method.
         """
         if not isinstance(value, (bytes, bytearray)):
-            if not hasattr(value.encode_rlp):
+            if not hasattr(value, "encode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have an encode_rlp method, not {}".format(
                         type(value)
                     )
                 )
-            if not hasattr(value.decode_rlp):
+            if not hasattr(value, "decode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have a decode_rlp method, not {}".format(
                         type(value)
-- 
2.43.0


From 0c26cfb22fc89f02ded21b69b13d42fe379c95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 11/29] fix: EMPT and SparseEMPT accept bytearray values

---
 src/pymt/empt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 91f6eec..706e5a2 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -254,7 +254,7 @@ class EMPT(MutableMapping):
             # Encode if not already bytes
             expected = DataReference(key, data.encode_rlp())
         else:
-            expected = DataReference(key, data)
+            expected = DataReference(key, bytes(data))
         if ref != expected:
             raise InvalidReferenceError(
                 "The reference does not match the expected data"
@@ -299,7 +299,7 @@ class EMPT(MutableMapping):
         if not isinstance(value, (bytes, bytearray)):
             ref = DataReference(key, value.encode_rlp())
         else:
-            ref = DataReference(key, value)
+            ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
         self._data_storage[key] = value
 
@@ -527,7 +527,7 @@ class SparseEMPT:
 
         if not isinstance(key, bytes):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
-        ref = DataReference(key, value)
+        ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
 
     def delete(self, key: bytes) -> ...:
-- 
2.43.0


From 4d8fcc2f1bda59fa57e5f0fecefaca1134ee18d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 12/29] fix: EMPT.build_trie() rebuilds the trie

It failed on every trie that had nodes, kept the old root and could not
handle values that are not bytes.
---
 src/pymt/empt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 706e5a2..678c5df 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -229,12 +229,16 @@ class EMPT(MutableMapping):
             database grows, the time it takes to build the trie will increase.
         """
         # Delete all the nodes in the trie
-        for key in self._trie._storage.keys():
+        for key in list(self._trie._storage.keys()):
             del self._trie._storage[key]
+        self._trie = MPT(self._trie._storage, secure=self._trie.secure)
 
         # Build the new trie
         for key in self._data_storage.keys():
-            ref = DataReference(key, self._data_storage[key])
+            value = self._data_storage[key]
+            if not isinstance(value, (bytes, bytearray)):
+                value = value.encode_rlp()
+            ref = DataReference(key, bytes(value))
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
-- 
2.43.0


From c4f9d7713f1fbaccd46992a5fd2ec744eb78d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 13/29] fix: tries made without a storage no longer share one

The default storages were mutable default arguments. The example relied on
the shared data storage and passes it now.
---
 src/pymt/empt.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 678c5df..af4f216 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -117,8 +117,8 @@ class EMPT(MutableMapping):
 
     def __init__(
         self,
-        trie_storage={},
-        data_storage={},
+        trie_storage=...,
+        data_storage=...,
         root: Union[bytes, None] = None,
         secure: bool = False,
     ) -> ...:
@@ -165,6 +165,11 @@ class EMPT(MutableMapping):
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        # Every trie that is made without a storage gets its own
+        if trie_storage is ...:
+            trie_storage = {}
+        if data_storage is ...:
+            data_storage = {}
         if data_storage is None:
             raise TypeError(
                 "The data storage must be set when the trie is in FULL mode"
@@ -426,7 +431,7 @@ class SparseEMPT:
     """
 
     def __init__(
-        self, trie_storage={}, root: Union[bytes, None] = None, secure: bool = False
+        self, trie_storage=..., root: Union[bytes, None] = None, secure: bool = False
     ):
         """
         Initialize the sparse storage EMPT.
@@ -446,6 +451,9 @@ class SparseEMPT:
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        # Every trie that is made without a storage gets its own
+        if trie_storage is ...:
+            trie_storage = {}
         self._trie = MPT(trie_storage, root, secure=secure)
 
     # DUNDER METHODS
-- 
2.43.0


From e31de6a501d3e1ae64e4e5ce6b19cb0e46da9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 14/29] fix: a Merkle tree is not ready after a leaf was added

The root stayed that of the old leaves and proofs mixed old levels with new
leaves.
---
 src/pymt/merkletools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 5fb1904..03bc587 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -113,6 +113,7 @@ class MerkleTools(object):
         else:
             value = bytearray(value)
         self.leaves.append(value)
+        self.is_ready = False
 
     def get_leaf(self, index: int) -> str:
         """
-- 
2.43.0


From 10619d04530605458c087addf31c8e9a4c849dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 15/29] fix: MerkleTree.verify_proof_of_inclusion() accepts
 honest proofs of secure trees

---
 src/pymt/mt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index d9bbe08..fea509a 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -153,6 +153,8 @@ class MerkleTree(MerkleTools):
 
         merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
+        if self.secure:
+            target_hash = self.hash_function(target_hash).digest()
 
         try:
             valid = super().verify_proof_of_inclusion(
-- 
2.43.0


From dacda9e681fab8aff6a7023c29ac4be94f2e6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 16/29] fix: JSON encoding works for the proofs MerkleTree
 makes

---
 src/pymt/proof.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 774869e..50a879c 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -159,7 +159,15 @@ class Proof:
         for key, value in content.items():
             if key.lower() == "proof":
                 if "MT" in self._type.decode():
-                    content[key] = [i.decode() for i in value]
+                    # Entries are bytes or (side, hash) pairs of bytes
+                    content[key] = [
+                        (
+                            i.decode()
+                            if isinstance(i, bytes)
+                            else [part.decode() for part in i]
+                        )
+                        for i in value
+                    ]
                 elif "MPT" in self._type.decode():
                     raise NotImplementedError(
                         "Encoding MPT proofs is not supported yet"
@@ -188,7 +196,10 @@ class Proof:
             # Build the mpt proof from string
             proof = []
             for i in encoded_proof_list:
-                proof.append(i.encode())
+                if isinstance(i, str):
+                    proof.append(i.encode())
+                else:
+                    proof.append(tuple(part.encode() for part in i))
 
         else:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
-- 
2.43.0


From e93079fe6bb43684996a5a57eede4e770ac1c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 17/29] fix: JSON encoding works for proofs of keys that are
 not UTF-8

---
 src/pymt/proof.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 50a879c..6ea6da2 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -173,7 +173,7 @@ class Proof:
                         "Encoding MPT proofs is not supported yet"
                     )
             else:
-                content[key] = value.decode()
+                content[key] = value.decode("utf-8", "surrogateescape")
         return json.dumps(content)
 
     @staticmethod
@@ -205,8 +205,8 @@ class Proof:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
 
         proof = Proof(
-            target_key=json_proof["target_key"].encode(),
-            root_hash=json_proof["root_hash"].encode(),
+            target_key=json_proof["target_key"].encode("utf-8", "surrogateescape"),
+            root_hash=json_proof["root_hash"].encode("utf-8", "surrogateescape"),
             proof=tuple(proof),
             proof_type=json_proof["proof_type"].encode(),
         )
-- 
2.43.0


From 19621fc177e1513ce68a4fb7a2c9ab58ce9db800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 18/29] fix: RLP decoding works for the proofs MerkleTree makes

---
 src/pymt/proof.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 6ea6da2..09ec959 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -265,14 +265,17 @@ class Proof:
                 rlp.sedes.binary,
                 rlp.sedes.binary,
                 rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.CountableList(rlp.sedes.raw),
             ]
         )
         decoded = rlp.decode(rlp_bytes, sedes=sedes)
         proof = Proof(
             target_key=decoded[2],
             root_hash=decoded[3],
-            proof=decoded[4],
+            # Entries are bytes or (side, hash) pairs of bytes
+            proof=tuple(
+                i if isinstance(i, bytes) else tuple(i) for i in decoded[4]
+            ),
             proof_type=decoded[0],
         )
         proof._timestamp = decoded[1]
-- 
2.43.0


From 1acc1f2f45e2c3518ac3a1916b23063727b10fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 19/29] fix: RsaEncKeyPair can encrypt and decrypt

---
 src/pymt/keypairs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index afbcd57..451bd3a 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -224,7 +224,7 @@ class RsaKeyPair(AbstractKeyPair):
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": self.sign(ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
             }
         ).encode("utf-8")
 
@@ -265,7 +265,9 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not self.signature_valid(ciphertext, signature, sender_public_key):
+        if not RsaKeyPair.signature_valid(
+            self, ciphertext, signature, sender_public_key
+        ):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
-- 
2.43.0


From b6b1657f5e26d703f31c5f01b297c8ba50eca703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 20/29] fix: hash() works on RSA key pairs

---
 src/pymt/keypairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 451bd3a..bfbde3f 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -57,7 +57,7 @@ class RsaKeyPair(AbstractKeyPair):
         return f"RsaKeyPair(nickname={self._nickname}, public_key={self.public_key_string})"
 
     def __hash__(self) -> int:
-        return Utils.hash_data(self.public_key)
+        return int(Utils.hash_data(self.public_key), 16)
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 3a3549cc7b04840a85f14e8c9d663ae598c52ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 21/29] fix: verify_proof_of_exclusion() compares the root the
 proof claims

---
 src/pymt/mpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index fa3ec50..4e69af7 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -456,6 +456,8 @@ class MPT:
         # Compare the root hashes
         if self.root_hash() != keccak_hash(proof.proof[0]):
             return False
+        if proof.trie_root not in (self.root(), self.root_hash()):
+            return False
 
         if Node.decode(proof.proof[-1]).data != b"null":
             return False
-- 
2.43.0


From 219d87e8d2185a6d863d9cdd0af5579f86badeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 22/29] fix: a trie proof is rejected when one of its nodes is
 not in its canonical encoding

---
 src/pymt/mpt.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 4e69af7..45bfeac 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -347,11 +347,13 @@ class MPT:
         proof_storage = {}
         for encoded_node in proof.proof:
             try:
-                proof_storage[Node.into_reference(Node.decode(encoded_node))] = (
-                    encoded_node
-                )
+                node = Node.decode(encoded_node)
             except rlp.DecodingError:
                 return False
+            # The node is only committed to in its own encoding
+            if node.encode() != encoded_node:
+                return False
+            proof_storage[Node.into_reference(node)] = encoded_node
         valid = self._verify_proof_of_inclusion(
             self._root, NibblePath(proof.target_key), proof_storage
         )
@@ -467,7 +469,11 @@ class MPT:
         proof_storage = {}
         for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.
             # print(type(encoded_node))
-            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
+            node = Node.decode(encoded_node)
+            # The node is only committed to in its own encoding
+            if node.encode() != encoded_node:
+                return False
+            proof_storage[Node.into_reference(node)] = encoded_node
 
         # The part of the path that is left after the walk
         path = NibblePath(proof.target_key)
-- 
2.43.0


From 5c8aa7ed7a735a3e465f1d559c3f4cf4afd40ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 23/29] fix: Merkle trees compare by their roots, also for
 plain leaves with leading zeros or no bytes

---
 src/pymt/merkletools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 03bc587..25e7296 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -62,11 +62,17 @@ class MerkleTools(object):
 
     def __hash__(self) -> int:
         """Get the hash of the Merkle tree."""
-        return int(self.get_merkle_root(), 16)
+        # A single plain leaf is the root as it is, also when it is empty
+        return int(self.get_merkle_root() or "0", 16)
 
     def __eq__(self, other: "MerkleTools") -> bool:
         """Check if two Merkle trees are equal."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, MerkleTools):
+            return False
+        # As text, because numbers would not tell leading zeros apart
+        roots = [tree.get_merkle_root() for tree in (self, other)]
+        roots = [root.encode() if isinstance(root, str) else root for root in roots]
+        return roots[0] == roots[1]
 
     def __repr__(self) -> str:
         """Get the string representation of the Merkle tree."""
-- 
2.43.0


From eeb840300e56aaff0c3876ef7ee77531826739cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 24/29] fix: the signature of an envelope covers all of it and
 the sender is authenticated with the data

---
 src/pymt/keypairs.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index bfbde3f..af4dab5 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -215,8 +215,11 @@ class RsaKeyPair(AbstractKeyPair):
         cipher_rsa = PKCS1_OAEP.new(recipient_key)
         enc_session_key = cipher_rsa.encrypt(session_key)
 
+        # The sender is authenticated with the data and the signature covers all of it
         cipher_aes = AES.new(session_key, AES.MODE_EAX)
+        cipher_aes.update(self.public_key)
         ciphertext, tag = cipher_aes.encrypt_and_digest(data)
+        signed = enc_session_key + cipher_aes.nonce + tag + ciphertext
 
         encrypted_data = json.dumps(
             {
@@ -224,7 +227,7 @@ class RsaKeyPair(AbstractKeyPair):
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, signed).hex(),
             }
         ).encode("utf-8")
 
@@ -265,15 +268,15 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not RsaKeyPair.signature_valid(
-            self, ciphertext, signature, sender_public_key
-        ):
+        signed = enc_session_key + nonce + tag + ciphertext
+        if not RsaKeyPair.signature_valid(self, signed, signature, sender_public_key):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
         session_key = cipher_rsa.decrypt(enc_session_key)
 
         cipher_aes = AES.new(session_key, AES.MODE_EAX, nonce)
+        cipher_aes.update(RSA.import_key(sender_public_key).publickey().export_key())
         decrypted_data = cipher_aes.decrypt_and_verify(ciphertext, tag)
 
         return decrypted_data
-- 
2.43.0


From 426872df797229700b1565ed55fdf06495693978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 25/29] fix: MPT.update refuses a key or value of the wrong
 type before it stores nodes

---
 src/pymt/mpt.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 45bfeac..9f2cfea 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -184,6 +184,13 @@ class MPT:
         encoded_value: bytes
             Value or RLP-encoded value.
         """
+        # Refuse what cannot be stored before any node is stored
+        for data in (encoded_key, encoded_value):
+            if not isinstance(data, (bytes, bytearray)):
+                raise TypeError(
+                    "Keys and values must be bytes, not {}".format(type(data))
+                )
+
         if self._secure:
             encoded_key = keccak_hash(encoded_key)
 
-- 
2.43.0


From 4cb553b2b1035284e1d5a4cdab3e426b5b3b5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 26/29] fix: paths made from other paths can be shown

repr and str of a common prefix or a combination raised AttributeError
---
 src/pymt/utils/nibble_path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/nibble_path.py b/src/pymt/utils/nibble_path.py
index f43e689..bd37e92 100644
--- a/src/pymt/utils/nibble_path.py
+++ b/src/pymt/utils/nibble_path.py
@@ -37,7 +37,7 @@ class NibblePath:
         Returns the data in hex format and the offset.
         """
         return "<NibblePath: Data: 0x{}, Offset: {}>".format(
-            self._data.hex(), self._offset
+            bytes(self._data).hex(), self._offset
         )
 
     def __str__(self) -> str:
@@ -46,7 +46,7 @@ class NibblePath:
 
         Returns the data in hex format and the raw data.
         """
-        return "<Hex 0x{} | Raw {}>".format(self._data.hex(), self._data)
+        return "<Hex 0x{} | Raw {}>".format(bytes(self._data).hex(), self._data)
 
     def __eq__(self, other: "NibblePath") -> bool:
         """
-- 
2.43.0


From 758e3d0cd2ad35013de1d41daab9636d6659500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 27/29] fix: Utils.rsa_key_valid answers False for any key that
 cannot be loaded

RSA.import_key raises IndexError for malformed OpenSSH keys
---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 1132c1f..bb9bb84 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -370,7 +370,7 @@ class Utils:
             # Check if the key is a valid public key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Public key could not be loaded.")
                 return False
@@ -382,7 +382,7 @@ class Utils:
             # Check if the key is a valid private key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Private could not be loaded.")
                 return False
-- 
2.43.0


From 4c3a77aa0e8491b82e087f57b134e4af458892d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 28/29] fix: time stamps can be read back without Django

datetime.datetime does not exist there, and the string had no timezone
---
 src/pymt/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index bb9bb84..fee1780 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -3,6 +3,7 @@ from Crypto.Hash import SHA256, SHA512
 from Crypto.Cipher import AES
 from Crypto.PublicKey import RSA, ECC
 from typing import Union
+from datetime import datetime as datetime_class
 import time
 import uuid
 import os
@@ -31,7 +32,8 @@ class Utils:
             The current timestamp as a string in the format
             YYYY-MM-DD HH:MM:SS.
         """
-        return datetime.now().strftime(format=cls.DATETIME_FORMAT)
+        # Without a timezone the string would not show which moment is meant
+        return datetime.now().astimezone().strftime(cls.DATETIME_FORMAT)
 
     @classmethod
     def get_datetime_stamp(cls) -> datetime:
@@ -73,7 +75,7 @@ class Utils:
         datetime
             The converted timestamp.
         """
-        return datetime.datetime.strptime(timestamp, cls.DATETIME_FORMAT)
+        return datetime_class.strptime(timestamp, cls.DATETIME_FORMAT)
 
     @staticmethod
     def get_id_string() -> str:
-- 
2.43.0


From 75def5b1dc37244b01ef3c7d3b7a3e87605dc48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 29/29] fix: a refused save destroyed the key file

---
 src/pymt/keypairs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index af4dab5..615cfef 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -343,9 +343,11 @@ class RsaKeyPair(AbstractKeyPair):
             "public_key": self.public_key_string,
             "private_key": self._key_pair.export_key(passphrase=passphrase).hex(),
         }
+        # Data that cannot be encoded must not cost what the file holds
+        content = json.dumps(data)
         # Dump the data to the file
         with open(file, "w") as key_file:
-            json.dump(data, key_file)
+            key_file.write(content)
 
     @classmethod
     def from_key_string(cls, key: str, passphrase: str) -> "RsaKeyPair":
-- 
2.43.0

