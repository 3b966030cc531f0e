From 41110f64ea4f6dd2a387afbab43fd26caf8d67b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 01/38] fix: MPT.get of a key that ends inside another path
 returned a foreign value

A key ending at a leaf with a remaining path, at a branch without a value or
at an extension is not in the trie; get now raises KeyNotFoundError.
---
 src/pymt/mpt.py | 2935 ++++++++++++++++++++++++-----------------------
 1 file changed, 1472 insertions(+), 1463 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac276a5..f3c3b8b 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -1,1463 +1,1472 @@
-from enum import Enum
-from .utils.hash import keccak_hash
-from .utils.nibble_path import NibblePath
-from .proof import Proof
-from .utils.node import (
-    Node,
-    Leaf,
-    Extension,
-    Branch,
-    _prepare_reference_for_encoding,
-    _prepare_reference_for_usage,
-)
-from .utils.exceptions import (
-    KeyNotFoundError,
-    ExtensionPathError,
-    LeafPathError,
-    BranchPathError,
-    PoeError,
-    PoiError,
-    InvalidNodeError,
-)
-from typing import Tuple, List, Union, Optional
-import rlp
-
-
-class MPT:
-    """
-    This class represents a trie.
-
-    MerklePatriciaTrie works like a wrapper over provided storage.
-    Storage must implement dict-like interface. Any data structure
-    that implements `__getitem__` and `__setitem__` should be OK.
-
-    IMPORTANT: MPT's use the terms path, node_ref, node value a lot
-    and it can cause some confusion.
-    -   path is a sequence of nibbles. The path is used for database lookup
-        and consists of the steps down the tree that are needed to reach the value.
-    -   node_ref is a reference to a node in the storage. The node ref is a
-        hash of the node itself.
-    -   node is the object that represents a node in the trie. It can be a leaf,
-        an extension or a branch. How many values are stored in a node depends on
-        the node type.
-
-    Methods
-    -------
-    get(encoded_key)
-        This method gets a value associtated with provided key.
-    update(encoded_key, encoded_value)
-        This method updates a provided key-value pair into the trie.
-    delete(encoded_key)
-        This method removes a value associtated with provided key.
-    """
-
-    def __init__(
-        self, storage: dict, root: Union[bytes, None] = None, secure: bool = False
-    ) -> ...:
-        """
-        Create a new instance of MPT.
-
-        Parameters
-        ----------
-        storage: dict-like
-            Data structure to store all the data of MPT.
-        root: bytes
-            (Optional) Root node (not root hash!) of the trie.
-            If not provided, tree will be considered empty.
-        secure: bool
-            (Optional) In secure mode all the keys are hashed using keccak256 internally.
-        """
-        self._storage = storage
-        if root == ... or root is None:
-            self._root = Node.EMPTY_HASH
-        else:
-            self._root = root
-        self._secure = secure
-
-    # PROPERTIES
-    @property
-    def secure(self) -> bool:
-        """Return True if trie is in secure mode."""
-        return self._secure
-
-    # DUNDER METHODS
-    def __len__(self) -> int:
-        """Return the number of nodes in the trie."""
-        return len(self._storage.keys())
-
-    def __contains__(self, encoded_key: bytes) -> bool:
-        return self.contains(encoded_key)
-
-    def __getitem__(self, encoded_key: bytes) -> bytes:
-        return self.get(encoded_key)
-
-    def __setitem__(self, encoded_key: bytes, encoded_value: bytes) -> None:
-        self.update(encoded_key, encoded_value)
-
-    def __delitem__(self, encoded_key: bytes) -> None:
-        self.delete(encoded_key)
-
-    def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
-
-    def __eq__(self, other: "MPT") -> bool:
-        if not isinstance(other, MPT):
-            return False
-        return self.__hash__() == other.__hash__()
-
-    # TREE FUNCTIONS
-    def root(self) -> Union[bytes, None]:
-        """
-        Return a root node of the trie.
-
-        Returns
-        -------
-        Node
-            Root node of the trie. Type is `bytes` if trie isn't empty and `None` otherwise.
-        """
-        return self._root
-
-    def root_hash(self) -> bytes:
-        """
-        Returns a hash of the trie's root node.
-
-        For empty trie it's the hash of the RLP-encoded empty string.
-
-        Returns
-        -------
-        bytes
-            Hash of the trie's root node.
-        """
-        if not self._root:
-            return Node.EMPTY_HASH
-        elif len(self._root) == 32:  # Root is already a hash
-            return self._root
-        else:
-            return keccak_hash(self._root)
-
-    def get(self, encoded_key: bytes) -> bytes:
-        """
-        This method gets a value associtated with provided key.
-
-        This method does not RLP-encode or hash the key.
-        If you use encoded keys, you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-
-        Returns
-        -------
-        bytes
-            Stored value associated with provided key.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no value assotiated with provided key.
-        """
-        if not self._root:
-            raise ValueError("Trie is empty")
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        path = NibblePath(encoded_key)
-        result_node = self._get(self._root, path)
-        return result_node.data
-
-    def update(self, encoded_key: bytes, encoded_value: bytes) -> ...:
-        """
-        This method updates a provided key-value pair into the trie.
-
-        If there is no such a key in the trie, a new entry will be created.
-        Otherwise value associtaed with key is updated.
-
-        This method does not RLP-encode the key and value.
-        If you use encoded keys and values, you should encode them yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-        encoded_value: bytes
-            Value or RLP-encoded value.
-        """
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        path = NibblePath(encoded_key)
-        result = self._update(self._root, path, encoded_value)
-        self._root = result
-
-    # Find out if the key is in the trie
-    def contains(self, key: bytes, hash_key: bool = True) -> bool:
-        """
-        This method checks if the key is in the trie.
-
-        This method does not RLP-encode the key.
-        If you use encoded keys, you should encode them yourself.
-        """
-        if not self._root:
-            return False
-
-        if self._secure and hash_key:
-            key = keccak_hash(key)
-
-        path = NibblePath(key)
-        node = self._contains(self._root, path)
-
-        # If the node is a branch check if it has a value
-        if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
-                return True
-            else:
-                return False
-
-        # If the node is an extension the key is not in the trie
-        # Extension nodes dont hold data
-        if isinstance(node, Extension):
-            return False
-
-        # If the node is a leaf the key is in the trie
-        if isinstance(node, Leaf):
-            if node.path == path:
-                return True
-            else:
-                return False
-        else:
-            # Path doesnt match so key is not in the trie
-            return False
-
-        raise Exception("This should never happen")
-
-    def delete(self, encoded_key: bytes) -> ...:
-        """
-        This method removes a value associtated with provided key.
-
-        This method does not RLP-encode the key.
-        If you use encoded keys, you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            The key or RLP-encoded key.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no value assotiated with provided key.
-        """
-
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Trie is empty")
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        path = NibblePath(encoded_key)
-        action, info = self._delete(self._root, path)
-
-        if action == MPT._DeleteAction.DELETED:
-            # Trie is empty
-            self._root = None
-        elif action == MPT._DeleteAction.UPDATED:
-            new_root = info
-            self._root = new_root
-        elif action == MPT._DeleteAction.USELESS_BRANCH:
-            _, new_root = info
-            self._root = new_root
-
-    # PROOF FUNCTIONS
-    def get_proof_of_inclusion(self, encoded_key: bytes) -> Proof:
-        """
-        This method returns a proof of inclusion for a key.
-
-        Proof is a list of nodes that are necessary to reconstruct the trie.
-
-        .. attention::
-            This method does not RLP-encode the key.
-            If you use encoded keys, you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-
-        Returns
-        -------
-        proof : Proof
-            The proof object for the proof of inclusion
-
-        Raises
-        ------
-        ValueError
-            ValueError is raised if the trie is empty.
-        """
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Cannot generate a proof for empty trie")
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        proof_list = self._get_proof_of_inclusion(
-            self._root, NibblePath(encoded_key), []
-        )
-        return Proof(
-            target_key=encoded_key,
-            root_hash=self.root(),
-            proof=tuple(proof_list),
-            proof_type=b"MPT-POI",
-        )
-
-    def verify_proof_of_inclusion(self, proof: Proof) -> bool:
-        """
-        This method verifies a proof object containing a proof of inclusion.
-
-        Parameters
-        ----------
-        proof : Proof
-            The proof object to verify.
-
-        Returns
-        -------
-        bool
-            True if the proof is valid, False otherwise.
-
-        Raises
-        ------
-        ValueError
-            ValueError is raised if the trie is empty.
-        TypeError
-            TypeError is raised if the proof is not a proof of inclusion.
-        """
-        if proof.type != b"MPT-POI":
-            raise TypeError("The given proof is not a proof of inclusion.")
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Cannot verify a proof for empty trie.")
-
-        # Compare the root hashes
-        if self.root_hash() != keccak_hash(proof.proof[0]):
-            return False
-
-        # Recreate a partial trie from the proof and walk down from root to taget
-        # node.
-        proof_storage = {}
-        for encoded_node in proof.proof:
-            try:
-                proof_storage[Node.into_reference(Node.decode(encoded_node))] = (
-                    encoded_node
-                )
-            except rlp.DecodingError:
-                return False
-        valid = self._verify_proof_of_inclusion(
-            self._root, NibblePath(proof.target_key), proof_storage
-        )
-        # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
-            return True
-        else:
-            return False
-
-    def get_proof_of_exclusion(self, encoded_key: bytes) -> Proof:
-        """
-        This method returns a proof of exclusion for a key.
-
-        Proof is a list of nodes that are necessary to reconstruct the trie.
-        This method does not RLP-encode the key. If you use encoded keys,
-        you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-
-        Returns
-        -------
-        proof : Proof
-            The Proof object for the proof of exclusion.
-
-        Raises
-        ------
-        ValueError
-            ValueError is raised if the trie is empty.
-        PoeError
-            PoeError is raised if the key is in the trie.
-        """
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Cannot generate a proof for empty trie")
-
-        # Check if the key is in the trie
-        if self.contains(encoded_key):
-            raise PoeError("Cannot generate a proof for a key that is in the trie")
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        path = NibblePath(encoded_key)
-        node, proof_list = self._get_proof_of_exclusion(self._root, path, [])
-
-        # Add a leaf node with the key to the proof
-        proof_list.append(Leaf(path, b"null").encode())
-
-        # If the node is a branch check if i thas a value
-        # Can be None or b'' (b'' is used when trie is in secure mode)
-        if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
-                raise PoeError("This should never happen")
-
-        # If the node is a leaf the key is in the trie
-        if isinstance(node, Leaf):
-            if node.path == path:
-                raise PoeError("This should never happen")
-
-        return Proof(
-            target_key=encoded_key,
-            root_hash=self.root_hash(),
-            proof=tuple(proof_list),
-            proof_type=b"MPT-POE",
-        )
-
-    def verify_proof_of_exclusion(self, proof: Proof) -> bool:
-        """
-        This method verifies a proof of exclusion for a key.
-
-        This method does not RLP-encode the key. If you use encoded keys,
-        you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-        proof: list of bytes
-            Proof of exclusion hash for a key.
-
-        Returns
-        -------
-        bool
-            True if the proof is valid, False otherwise.
-
-        Raises
-        ------
-        ValueError
-            ValueError is raised if the trie is empty.
-        TypeError
-            TypeError is raised if the proof is not a proof of exclusion.
-        """
-        if proof.type != b"MPT-POE":
-            raise TypeError("The given proof is not a proof of exclusion.")
-
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Cannot verify a proof for empty trie")
-
-        # Compare the root hashes
-        if self.root_hash() != keccak_hash(proof.proof[0]):
-            return False
-
-        if Node.decode(proof.proof[-1]).data != b"null":
-            return False
-
-        # Recreate a partial trie from the proof and walk down from root to taget
-        # node.
-        proof_storage = {}
-        for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.
-            # print(type(encoded_node))
-            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
-
-        node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), NibblePath(proof.target_key), proof_storage
-        )
-
-        # There should be no keys left in the proof
-        if len(keys_left.keys()) != 0:
-            return False
-
-        # Check if the result node is valid
-        # If the node is a branch check if it has a value
-        if isinstance(node, Branch):
-            if node.data == None:
-                return False
-
-        # If the node is a leaf the key is in the trie
-
-        if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
-                return False
-
-        # Proof passed
-        return True
-
-    # CODEC
-    def encode(self) -> bytes:
-        """Encode the trie into rlp."""
-        storage_list = [
-            _prepare_reference_for_encoding(node) for node in self._storage.values()
-        ]
-        content = [self.root(), storage_list, self._secure]
-        return rlp.encode(content)
-
-    @staticmethod
-    def decode(encoded_data: bytes) -> "MPT":
-        """
-        Decode the trie from rlp.
-
-        Parameters
-        ----------
-        encoded_data : bytes
-            The rlp encoded trie.
-
-        Returns
-        -------
-        MMPT
-            The decoded trie.
-        """
-        sedes = rlp.sedes.List(
-            [
-                rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
-                rlp.sedes.boolean,
-            ]
-        )
-        root, storage_list, secure = rlp.decode(encoded_data, sedes=sedes)
-        storage = {}
-        for encoded_node in storage_list:
-            # Nodes are stored as the RPL encoded version of the full node
-            storage[keccak_hash(encoded_node)] = _prepare_reference_for_usage(
-                encoded_node
-            )
-
-        return MPT(storage=storage, root=root, secure=secure)
-
-    # SUPPORTING METHODS
-    def _get_node(self, node_ref: bytes) -> Node:
-        """This method gets a node from storage."""
-        raw_node = None
-
-        # Okey maybe it is alright like this because an RLP encoded node will
-        # still get decoded
-        # If the node_ref is already a node, just return it
-        if (
-            isinstance(node_ref, Extension)
-            or isinstance(node_ref, Leaf)
-            or isinstance(node_ref, Branch)
-        ):
-            return node_ref
-
-        # Otherwise try to get it from storage or decode it from RLP
-        if len(node_ref) == 32:
-            raw_node = self._storage[node_ref]
-            if isinstance(raw_node, Node):
-                return raw_node
-        else:
-            raw_node = node_ref
-
-        decoded_node = Node.decode(raw_node)
-        if not (
-            isinstance(decoded_node, Extension)
-            or isinstance(decoded_node, Leaf)
-            or isinstance(decoded_node, Branch)
-        ):
-            raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
-        return decoded_node
-
-    def _get(self, node_ref: bytes, path: NibblePath) -> bytes:
-        """
-        Get support method.
-
-        Returns a value associated with provided key.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-
-        Returns
-        -------
-        bytes
-            Value associated with provided key.
-
-        Raises
-        ------
-        KeyNotFoundError
-            KeyError is raised if there is no value assotiated with provided key.
-        ExtensionPathError, BranchPathError, LeafPathError, InvalidNodeError, ExtentionPathError
-            Raised if the path is not valid.
-        """
-        node = self._get_node(node_ref)
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            return node
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.
-            if node.path == path:
-                return node
-            else:
-                raise KeyNotFoundError(
-                    "The leaf key and search key do not match."
-                    " Leaf key: {}, search key: {}".format(node.path, path)
-                )
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                return self._get(node.next_ref, rest_path)
-            else:
-                raise ExtensionPathError(
-                    "Something wrong with the path in the extension."
-                    " Extension path: {}, search path: {}".format(node.path, path)
-                )
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                return self._get(branch, path.consume(1))
-            else:
-                raise BranchPathError(
-                    "Branch slot is empty."
-                    " Branch: {}, search path: {}".format(node.branches, path)
-                )
-
-        raise InvalidNodeError("Invalid node type {}".format(type(node)))
-
-    def _contains(self, node_ref: bytes, path: NibblePath) -> bool:
-        """
-        contains support method.
-
-        Only returns the node as close to the end of the path as possible.
-        The main contains method will check if this node has a value, and
-        if this value is the one we're looking for.
-        """
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            return False
-
-        node = self._get_node(node_ref)
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            return node
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.(we hope its the wrong leaf but
-            # that is up to the main method).
-            return node
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                return self._contains(node.next_ref, rest_path)
-            else:
-                return node
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                return self._contains(branch, path.consume(1))
-            else:
-                # This is the furthest node we can go.
-                return node
-
-        raise InvalidNodeError("Invalid node type {}".format(type(node)))
-
-    def _get_proof_of_inclusion(
-        self, node_ref: bytes, path: NibblePath, proof: dict
-    ) -> dict:
-        """
-        Get proof of inclusion support method.
-
-        Used to iterate over the trie and get a proof of inclusion for a node ref.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-        proof: dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Returns
-        -------
-        dict
-            Dictionary with nodes in the proof up untill now.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no node assotiated with provided key.
-        LeafPathError, InvalidNodeError, ExtentionPathError, BranchPathError
-            Raised if the path is not valid.
-        """
-        # Get the node from the reference
-        node = self._get_node(node_ref)
-
-        # print(type(node))
-
-        if len(path) == 0:
-            # If path is empty, we've found the node.
-            # The node doesnt have to be a leaf.
-            proof.append(node.encode())
-            return proof
-
-        if isinstance(node, Leaf):
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.
-            if node.path == path:
-                proof.append(node.encode())
-                return proof
-            else:
-                raise LeafPathError(
-                    "The leaf key and search key do not match"
-                    " Leaf key: {}, search key: {}".format(node.path, path)
-                )
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                proof.append(node.encode())
-                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)
-            else:
-                raise ExtensionPathError(
-                    "Something wrong with the path in the extension"
-                    " Extension path: {}, search path: {}".format(node.path, path)
-                )
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                proof.append(node.encode())
-                return self._get_proof_of_inclusion(branch, path.consume(1), proof)
-            else:
-                raise BranchPathError(
-                    "Branch slot is empty."
-                    " Branch: {}, search path: {}".format(node.branches, path)
-                )
-
-        raise InvalidNodeError("Unknown node type {}".format(node))
-
-    def _verify_proof_of_inclusion(
-        self, node_ref: bytes, path: NibblePath, proof_storage: dict
-    ) -> bool:
-        """
-        Verify proof of inclusion support method.
-
-        Used to verify a proof of inclusion for a node ref.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-        proof: dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Returns
-        -------
-        bool
-            True if the proof is valid, False otherwise.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no node assotiated with provided key.
-        ExtensionPathError, InvalidNodeError, LeafPathError, BranchPathError, InvalidNodeError
-            Raised if the path is not valid.
-        """
-        # Get the right node from the proof storage
-        if not (
-            isinstance(node_ref, Leaf)
-            or isinstance(node_ref, Extension)
-            or isinstance(node_ref, Branch)
-        ):
-            # Otherwise try to get it from storage or decode it from RLP
-            if len(node_ref) == 32:
-                try:
-                    raw_node = proof_storage[node_ref]
-                except KeyError:
-                    return False
-            else:
-                raw_node = node_ref
-            node = Node.decode(raw_node)
-        else:
-            node = node_ref
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            # check extension and node, leaf already handeled
-            if isinstance(node, Extension):
-                return False
-            if isinstance(node, Branch):
-                # Check if the branch has data
-                if node.data != None:
-                    return True
-                else:
-                    return False
-            return True
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.
-            if node.path == path:
-                return True
-            else:
-                return False
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                return self._verify_proof_of_inclusion(
-                    node.next_ref, rest_path, proof_storage
-                )
-            else:
-                raise ExtensionPathError(
-                    "Something wrong with the path in the extension."
-                    " Extension path: {}, search path: {}".format(node.path, path)
-                )
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                return self._verify_proof_of_inclusion(
-                    branch, path.consume(1), proof_storage
-                )
-            else:
-                raise BranchPathError(
-                    "Branch slot is empty."
-                    " Branch: {}, search path: {}".format(node.branches, path)
-                )
-
-        raise InvalidNodeError("Unknown node type {}".format(node))
-
-    def _get_proof_of_exclusion(
-        self, node_ref: bytes, path: NibblePath, proof: dict
-    ) -> dict:
-        """
-        Get proof of exclusion support method.
-
-        Used to iterate over the trie and get a proof of exclusion for a node ref.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-        proof: dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Returns
-        -------
-        dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no node assotiated with provided key.
-        """
-        node = self._get_node(node_ref)
-
-        # print(type(node))
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            proof.append(node.encode())
-            return node, proof
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.(we hope its the wrong leaf but
-            # that is up to the main method).
-            proof.append(node.encode())
-            return node, proof
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                proof.append(node.encode())
-                return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
-            else:
-                return node, proof
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            proof.append(node.encode())
-            if len(branch) > 0:
-                return self._get_proof_of_exclusion(branch, path.consume(1), proof)
-            else:
-                # This is the furthest node we can go.
-                return node, proof
-
-        raise InvalidNodeError("Invalid node type {}".format(type(node)))
-
-    def _verify_proof_of_exclusion(
-        self,
-        node_ref: Union[bytes, Leaf, Branch, Extension],
-        path: NibblePath,
-        proof_storage: dict,
-    ) -> Tuple[bool, dict]:
-        """
-        Verify proof of exclusion support method.
-
-        Used to verify a proof of exclusion for a node ref.
-
-        Parameters
-        ----------
-        node_ref: bytes, Leaf, Branch, Extension
-            Reference to a node or the node itself.
-        path: NibblePath
-            Path to a value.
-        proof: dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Returns
-        -------
-        bool, node_ref
-            True if this the last node in the proof, the next node ref otherwise.
-        proof_storage: dict
-            Dictionary with nodes.
-
-        Raises
-        ------
-        PoeError
-            PoeError when there is something wrong with the proof.
-        InvalidNodeError
-            InvalidNodeError when there is an invalid node in the proof.
-        """
-        # Get the right node from the proof storage
-        if not (
-            isinstance(node_ref, Leaf)
-            or isinstance(node_ref, Extension)
-            or isinstance(node_ref, Branch)
-        ):
-            # Otherwise try to get it from storage or decode it from RLP
-            if len(node_ref) == 32:
-                try:
-                    raw_node = proof_storage[node_ref]
-                except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
-            else:
-                raw_node = node_ref
-            node = Node.decode(raw_node)
-        else:
-            node = node_ref
-
-        # Remove the used reference and node from the dictionary
-        if proof_storage.pop(node_ref, None) == None:
-            raise PoeError(
-                "The proof storage returned a node with value None,"
-                " this should not be possible."
-            )
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            return node, proof_storage
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.(we hope its the wrong leaf but
-            # that is up to the main method).
-            return node, proof_storage
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                return self._verify_proof_of_exclusion(
-                    node.next_ref, rest_path, proof_storage
-                )
-            else:
-                return node, proof_storage
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                return self._verify_proof_of_exclusion(
-                    branch, path.consume(1), proof_storage
-                )
-            else:
-                # This is the furthest node we can go.
-                return node, proof_storage
-
-        raise InvalidNodeError("Invalid node type {}".format(type(node)))
-
-    def _update(self, node_ref: bytes, path: NibblePath, value: bytes) -> bytes:
-        """
-        Update support method.
-
-        Updates a value associated with provided key.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-        value: bytes
-            Value to be stored.
-
-        Returns
-        -------
-        bytes
-            New root of the trie.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no value assotiated with provided key.
-        """
-        if not node_ref or node_ref == Node.EMPTY_HASH:
-            return self._store_node(Leaf(path, value))
-
-        node = self._get_node(node_ref)
-
-        if type(node) == Leaf:
-            # If we're updating the leaf there are 2 possible ways:
-            # 1. Path is equals to the rest of the key. Then we should
-            #    just update value of this leaf.
-            # 2. Path differs. Then we should split this node into several nodes.
-
-            if node.path == path:
-                # Path is the same. Just change the value.
-                node.data = value
-                return self._store_node(node)
-
-            # If we are here, we have to split the node.
-
-            # Find the common part of the key and leaf's path.
-            common_prefix = path.common_prefix(node.path)
-
-            # Cut off the common part.
-            path.consume(len(common_prefix))
-            node.path.consume(len(common_prefix))
-
-            # Create branch node to split paths.
-            branch_reference = self._create_branch_node(
-                path, value, node.path, node.data
-            )
-
-            # If common part isn't empty, we have to create an extension node before branch node.
-            # Otherwise, we need just branch node.
-            if len(common_prefix) != 0:
-                return self._store_node(Extension(common_prefix, branch_reference))
-            else:
-                return branch_reference
-
-        elif type(node) == Extension:
-            # If we're updating an extenstion there are 2 possible ways:
-            # 1. Key starts with the extension node's path.
-            #    Then we just go ahead and all the work will be done there.
-            # 2. Key doesn't start with extension node's path. Then we have to split extension node.
-
-            if path.starts_with(node.path):
-                # Just go ahead.
-                new_reference = self._update(
-                    node.next_ref, path.consume(len(node.path)), value
-                )
-                return self._store_node(Extension(node.path, new_reference))
-
-            # Split extension node.
-
-            # Find the common part of the key and extension's path.
-            common_prefix = path.common_prefix(node.path)
-
-            # Cut off the common part.
-            path.consume(len(common_prefix))
-            node.path.consume(len(common_prefix))
-
-            # Create an empty branch node. It may have or have not the value depending on the length
-            # of the rest of the key.
-            branches = [b""] * 16
-            branch_value = value if len(path) == 0 else b""
-
-            # If needed, create leaf branch for the value we're inserting.
-            self._create_branch_leaf(path, value, branches)
-            # If needed, create an extension node for the rest of the extension's path.
-            self._create_branch_extension(node.path, node.next_ref, branches)
-
-            branch_reference = self._store_node(Branch(branches, branch_value))
-
-            # If common part isn't empty, we have to create an extension node before branch node.
-            # Otherwise, we need just branch node.
-            if len(common_prefix) != 0:
-                return self._store_node(Extension(common_prefix, branch_reference))
-            else:
-                return branch_reference
-
-        elif type(node) == Branch:
-            # For branch node things are easy.
-            # 1. If key is empty, just store value in this node.
-            # 2. If key isn't empty, just call `_update` with appropiate branch reference.
-
-            if len(path) == 0:
-                return self._store_node(Branch(node.branches, value))
-
-            idx = path.at(0)
-            new_reference = self._update(node.branches[idx], path.consume(1), value)
-
-            node.branches[idx] = new_reference
-
-            return self._store_node(node)
-
-    def _create_branch_node(
-        self, path_a: NibblePath, value_a: bytes, path_b: NibblePath, value_b: bytes
-    ) -> bytes:
-        """
-        Create a branch node with up to two leaves and maybe value.
-
-        Parameters
-        ----------
-        path_a: NibblePath
-            Path to a leaf.
-        value_a: bytes
-            Value to be stored in a leaf.
-        path_b: NibblePath
-            Path to a leaf.
-        value_b: bytes
-            Value to be stored in a leaf.
-
-        Returns
-        -------
-        bytes
-            Reference to created node.
-        """
-
-        assert len(path_a) != 0 or len(path_b) != 0
-
-        branches = [b""] * 16
-
-        branch_value = b""
-        if len(path_a) == 0:
-            branch_value = value_a
-        elif len(path_b) == 0:
-            branch_value = value_b
-
-        self._create_branch_leaf(path_a, value_a, branches)
-        self._create_branch_leaf(path_b, value_b, branches)
-
-        return self._store_node(Branch(branches, branch_value))
-
-    def _create_branch_leaf(
-        self, path: NibblePath, value: bytes, branches: List[bytes]
-    ) -> ...:
-        """
-        If path isn't empty, creates leaf node and stores reference in appropriate branch.
-
-        Parameters
-        ----------
-        path: NibblePath
-            Path to a leaf.
-        value: bytes
-            Value to be stored in a leaf.
-        branches: list of bytes
-            List of references to nodes.
-
-        Returns
-        -------
-        None
-        """
-        if len(path) > 0:
-            idx = path.at(0)
-
-            leaf_ref = self._store_node(Leaf(path.consume(1), value))
-            branches[idx] = leaf_ref
-
-    def _create_branch_extension(
-        self, path: NibblePath, next_ref: bytes, branches: List[bytes]
-    ) -> ...:
-        """
-        If needed, create an extension node and stores reference in appropriate branch.
-        Otherwise just stores provided reference.
-
-        Parameters
-        ----------
-        path: NibblePath
-            Path to an extension node.
-        next_ref: bytes
-            Reference to a node.
-        branches: list of bytes
-            List of references to nodes.
-
-        Returns
-        -------
-        None
-        """
-        assert (
-            len(path) >= 1
-        ), "Path for extension node should contain at least one nibble"
-
-        if len(path) == 1:
-            branches[path.at(0)] = next_ref
-        else:
-            idx = path.at(0)
-            reference = self._store_node(Extension(path.consume(1), next_ref))
-            branches[idx] = reference
-
-    def _store_node(self, node: Node) -> bytes:
-        """
-        Build the reference from the node and if needed saves node in the storage.
-
-        Parameters
-        ----------
-        node: Node
-            Node to be stored.
-
-        Returns
-        -------
-        bytes
-            Reference to the node.
-        """
-        reference = Node.into_reference(node)
-        if len(reference) == 32:
-            self._storage[reference] = node.encode()
-        return reference
-
-    class _DeleteAction(Enum):
-        """
-        Enum that shows which action was performed on the previous step of the deletion.
-        """
-
-        # Node was deleted. Returned value should be (_DeleteAction, None).
-        DELETED = (1,)
-        # Node was updated. Returned value should be (_DeleteAction, new_node_reference)
-        UPDATED = (2,)
-        # Branch became useless. Returned value should be
-        # (_DeleteAction, (path_to_new_reference, new_node_reference))
-        USELESS_BRANCH = 3
-
-    def _delete(
-        self, node_ref: bytes, path: NibblePath
-    ) -> Tuple[_DeleteAction, Optional[bytes]]:
-        """
-        Delete method helper.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to the node.
-        path: NibblePath
-            Path to the node.
-
-        Returns
-        -------
-        _DeleteAction
-            Action that was performed on the previous step of the deletion.
-
-        """
-
-        node = self._get_node(node_ref)
-
-        if type(node) == Leaf:
-            # If it's leaf node, then it's either node we need or incorrect key provided.
-            if path == node.path:
-                return MPT._DeleteAction.DELETED, None
-            else:
-                raise LeafPathError("Incorrect or non existing path provided")
-
-        elif type(node) == Extension:
-            # Extension node can't be removed directly, it passes delete request to the next node.
-            # After that several options are possible:
-            # 1. Next node was deleted. Then this node should be deleted too.
-            # 2. Next node was updated. Then we should update stored reference.
-            # 3. Next node was useless branch. Then we have to update our node depending on the next node type.
-
-            if not path.starts_with(node.path):
-                raise ExtensionPathError("Incorrect path provided")
-
-            action, info = self._delete(node.next_ref, path.consume(len(node.path)))
-
-            if action == MPT._DeleteAction.DELETED:
-                # Next node was deleted. This node should be deleted also.
-                return action, None
-            elif action == MPT._DeleteAction.UPDATED:
-                # Next node was updated. Update this node too.
-                child_ref = info
-                new_ref = self._store_node(Extension(node.path, child_ref))
-                return action, new_ref
-            elif action == MPT._DeleteAction.USELESS_BRANCH:
-                # Next node was useless branch.
-                stored_path, stored_ref = info
-
-                child = self._get_node(stored_ref)
-
-                new_node = None
-                if type(child) == Leaf:
-                    # If next node is the leaf, our node is unnecessary.
-                    # Concat our path with leaf path and return reference to the leaf.
-                    path = NibblePath.combine(node.path, child.path)
-                    new_node = Leaf(path, child.data)
-                elif type(child) == Extension:
-                    # If next node is the extension, merge this and next node into one.
-                    path = NibblePath.combine(node.path, child.path)
-                    new_node = Extension(path, child.next_ref)
-                elif type(child) == Branch:
-                    # If next node is the branch, concatenate paths and update stored reference.
-                    path = NibblePath.combine(node.path, stored_path)
-                    new_node = Extension(path, stored_ref)
-
-                new_reference = self._store_node(new_node)
-                return MPT._DeleteAction.UPDATED, new_reference
-
-        elif type(node) == Branch:
-            # For branch node things are quite complicated.
-            # If rest of the key is empty and there is stored value, just clear value field.
-            # Otherwise call _delete for the appropriate branch.
-            # At this step we will have delete action and (possibly) index of the branch we're working with.
-            #
-            # Then, if next node was updated or was useless branch, just update reference.
-            # If `_DeleteAction` is `DELETED` then either the next node or value of this node was removed.
-            # We have to check if there is at least 2 branches or 1 branch and value still persist in this node.
-            # If there are no branches and no value left, delete this node completely.
-            # If there is a value but no branches, create leaf node with value and empty path
-            # and return `USELESS_BRANCH` action.
-            # If there is an only branch and no value, merge nibble of this branch and path of the underlying node
-            # and return `USELESS_BRANCH` action.
-            # Otherwise our branch isn't useless and was updated.
-
-            action = None
-            idx = None
-            info = None
-
-            assert (
-                len(path) != 0 or len(node.data) != 0
-            ), "Empty path or empty branch node in _delete"
-
-            # Decide if we need to remove value of this node or go deeper.
-            if len(path) == 0 and len(node.data) == 0:
-                # This branch node has no value thus we can't delete it.
-                raise BranchPathError("Branch node has no value so cannot be deleted")
-            elif len(path) == 0 and len(node.data) != 0:
-                node.data = b""
-                action = MPT._DeleteAction.DELETED
-            else:
-                # Store idx of the branch we're working with.
-                idx = path.at(0)
-
-                if len(node.branches[idx]) == 0:
-                    raise BranchPathError(
-                        "Empty branch in _delete, could not delete the value."
-                    )
-
-                action, info = self._delete(node.branches[idx], path.consume(1))
-                node.branches[idx] = b""
-
-            if action == MPT._DeleteAction.DELETED:
-                non_empty_count = sum(
-                    map(lambda x: 1 if len(x) > 0 else 0, node.branches)
-                )
-
-                if non_empty_count == 0 and len(node.data) == 0:
-                    # Branch node is empty, just delete it.
-                    return MPT._DeleteAction.DELETED, None
-                elif non_empty_count == 0 and len(node.data) != 0:
-                    # No branches, just value.
-                    path = NibblePath([])
-                    reference = self._store_node(Leaf(path, node.data))
-
-                    return MPT._DeleteAction.USELESS_BRANCH, (
-                        path,
-                        reference,
-                    )
-                elif non_empty_count == 1 and len(node.data) == 0:
-                    # No value and one branch
-                    return self._build_new_node_from_last_branch(node.branches)
-                else:
-                    # Branch has value and 1+ branches or no value and 2+ branches.
-                    # It isn't useless, so action is `UPDATED`.
-                    reference = self._store_node(node)
-                    return MPT._DeleteAction.UPDATED, reference
-            elif action == MPT._DeleteAction.UPDATED:
-                # Just update reference.
-                next_ref = info
-                node.branches[idx] = next_ref
-                reference = self._store_node(node)
-                return MPT._DeleteAction.UPDATED, reference
-            elif action == MPT._DeleteAction.USELESS_BRANCH:
-                # Just update reference.
-                _, next_ref = info
-                node.branches[idx] = next_ref
-                reference = self._store_node(node)
-                return MPT._DeleteAction.UPDATED, reference
-
-    def _build_new_node_from_last_branch(
-        self, branches: List[bytes]
-    ) -> Tuple[_DeleteAction, bytes]:
-        """
-        Combine nibble of the only branch left with underlying node and creates new node.
-
-        Parameters
-        ----------
-        branches : list of bytes
-            List of references to the branches.
-
-        Returns
-        -------
-        tuple
-            Tuple of `_DeleteAction` and reference to the new node.
-
-        Raises
-        ------
-        KeyError
-            If there is no branches left.
-
-        """
-
-        # Find the index of the only stored branch.
-        idx = 0
-        for i in range(len(branches)):
-            if len(branches[i]) > 0:
-                idx = i
-                break
-
-        # Path in leaf will contain one nibble (at this step).
-        prefix_nibble = NibblePath([idx], offset=1)
-
-        child = self._get_node(branches[idx])
-
-        path = None
-        node = None
-
-        # Build new node.
-        # If next node is leaf or extension, merge it.
-        # If next node is branch, create an extension node with one nibble in path.
-        if type(child) == Leaf:
-            path = NibblePath.combine(prefix_nibble, child.path)
-            node = Leaf(path, child.data)
-        elif type(child) == Extension:
-            path = NibblePath.combine(prefix_nibble, child.path)
-            node = Extension(path, child.next_ref)
-        elif type(child) == Branch:
-            path = prefix_nibble
-            node = Extension(path, branches[idx])
-
-        reference = self._store_node(node)
-
-        return MPT._DeleteAction.USELESS_BRANCH, (path, reference)
+from enum import Enum
+from .utils.hash import keccak_hash
+from .utils.nibble_path import NibblePath
+from .proof import Proof
+from .utils.node import (
+    Node,
+    Leaf,
+    Extension,
+    Branch,
+    _prepare_reference_for_encoding,
+    _prepare_reference_for_usage,
+)
+from .utils.exceptions import (
+    KeyNotFoundError,
+    ExtensionPathError,
+    LeafPathError,
+    BranchPathError,
+    PoeError,
+    PoiError,
+    InvalidNodeError,
+)
+from typing import Tuple, List, Union, Optional
+import rlp
+
+
+def _holds_value(node: Node) -> bool:
+    """Return True if a path that ends at this node has its value in this node."""
+    if isinstance(node, Leaf):
+        return len(node.path) == 0
+    return isinstance(node, Branch) and len(node.data) != 0
+
+
+class MPT:
+    """
+    This class represents a trie.
+
+    MerklePatriciaTrie works like a wrapper over provided storage.
+    Storage must implement dict-like interface. Any data structure
+    that implements `__getitem__` and `__setitem__` should be OK.
+
+    IMPORTANT: MPT's use the terms path, node_ref, node value a lot
+    and it can cause some confusion.
+    -   path is a sequence of nibbles. The path is used for database lookup
+        and consists of the steps down the tree that are needed to reach the value.
+    -   node_ref is a reference to a node in the storage. The node ref is a
+        hash of the node itself.
+    -   node is the object that represents a node in the trie. It can be a leaf,
+        an extension or a branch. How many values are stored in a node depends on
+        the node type.
+
+    Methods
+    -------
+    get(encoded_key)
+        This method gets a value associtated with provided key.
+    update(encoded_key, encoded_value)
+        This method updates a provided key-value pair into the trie.
+    delete(encoded_key)
+        This method removes a value associtated with provided key.
+    """
+
+    def __init__(
+        self, storage: dict, root: Union[bytes, None] = None, secure: bool = False
+    ) -> ...:
+        """
+        Create a new instance of MPT.
+
+        Parameters
+        ----------
+        storage: dict-like
+            Data structure to store all the data of MPT.
+        root: bytes
+            (Optional) Root node (not root hash!) of the trie.
+            If not provided, tree will be considered empty.
+        secure: bool
+            (Optional) In secure mode all the keys are hashed using keccak256 internally.
+        """
+        self._storage = storage
+        if root == ... or root is None:
+            self._root = Node.EMPTY_HASH
+        else:
+            self._root = root
+        self._secure = secure
+
+    # PROPERTIES
+    @property
+    def secure(self) -> bool:
+        """Return True if trie is in secure mode."""
+        return self._secure
+
+    # DUNDER METHODS
+    def __len__(self) -> int:
+        """Return the number of nodes in the trie."""
+        return len(self._storage.keys())
+
+    def __contains__(self, encoded_key: bytes) -> bool:
+        return self.contains(encoded_key)
+
+    def __getitem__(self, encoded_key: bytes) -> bytes:
+        return self.get(encoded_key)
+
+    def __setitem__(self, encoded_key: bytes, encoded_value: bytes) -> None:
+        self.update(encoded_key, encoded_value)
+
+    def __delitem__(self, encoded_key: bytes) -> None:
+        self.delete(encoded_key)
+
+    def __hash__(self) -> int:
+        return int(keccak_hash(self._root), 16)
+
+    def __eq__(self, other: "MPT") -> bool:
+        if not isinstance(other, MPT):
+            return False
+        return self.__hash__() == other.__hash__()
+
+    # TREE FUNCTIONS
+    def root(self) -> Union[bytes, None]:
+        """
+        Return a root node of the trie.
+
+        Returns
+        -------
+        Node
+            Root node of the trie. Type is `bytes` if trie isn't empty and `None` otherwise.
+        """
+        return self._root
+
+    def root_hash(self) -> bytes:
+        """
+        Returns a hash of the trie's root node.
+
+        For empty trie it's the hash of the RLP-encoded empty string.
+
+        Returns
+        -------
+        bytes
+            Hash of the trie's root node.
+        """
+        if not self._root:
+            return Node.EMPTY_HASH
+        elif len(self._root) == 32:  # Root is already a hash
+            return self._root
+        else:
+            return keccak_hash(self._root)
+
+    def get(self, encoded_key: bytes) -> bytes:
+        """
+        This method gets a value associtated with provided key.
+
+        This method does not RLP-encode or hash the key.
+        If you use encoded keys, you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+
+        Returns
+        -------
+        bytes
+            Stored value associated with provided key.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no value assotiated with provided key.
+        """
+        if not self._root:
+            raise ValueError("Trie is empty")
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        path = NibblePath(encoded_key)
+        result_node = self._get(self._root, path)
+        return result_node.data
+
+    def update(self, encoded_key: bytes, encoded_value: bytes) -> ...:
+        """
+        This method updates a provided key-value pair into the trie.
+
+        If there is no such a key in the trie, a new entry will be created.
+        Otherwise value associtaed with key is updated.
+
+        This method does not RLP-encode the key and value.
+        If you use encoded keys and values, you should encode them yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+        encoded_value: bytes
+            Value or RLP-encoded value.
+        """
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        path = NibblePath(encoded_key)
+        result = self._update(self._root, path, encoded_value)
+        self._root = result
+
+    # Find out if the key is in the trie
+    def contains(self, key: bytes, hash_key: bool = True) -> bool:
+        """
+        This method checks if the key is in the trie.
+
+        This method does not RLP-encode the key.
+        If you use encoded keys, you should encode them yourself.
+        """
+        if not self._root:
+            return False
+
+        if self._secure and hash_key:
+            key = keccak_hash(key)
+
+        path = NibblePath(key)
+        node = self._contains(self._root, path)
+
+        # If the node is a branch check if it has a value
+        if isinstance(node, Branch):
+            if node.data != None and node.data != b"":
+                return True
+            else:
+                return False
+
+        # If the node is an extension the key is not in the trie
+        # Extension nodes dont hold data
+        if isinstance(node, Extension):
+            return False
+
+        # If the node is a leaf the key is in the trie
+        if isinstance(node, Leaf):
+            if node.path == path:
+                return True
+            else:
+                return False
+        else:
+            # Path doesnt match so key is not in the trie
+            return False
+
+        raise Exception("This should never happen")
+
+    def delete(self, encoded_key: bytes) -> ...:
+        """
+        This method removes a value associtated with provided key.
+
+        This method does not RLP-encode the key.
+        If you use encoded keys, you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            The key or RLP-encoded key.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no value assotiated with provided key.
+        """
+
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Trie is empty")
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        path = NibblePath(encoded_key)
+        action, info = self._delete(self._root, path)
+
+        if action == MPT._DeleteAction.DELETED:
+            # Trie is empty
+            self._root = None
+        elif action == MPT._DeleteAction.UPDATED:
+            new_root = info
+            self._root = new_root
+        elif action == MPT._DeleteAction.USELESS_BRANCH:
+            _, new_root = info
+            self._root = new_root
+
+    # PROOF FUNCTIONS
+    def get_proof_of_inclusion(self, encoded_key: bytes) -> Proof:
+        """
+        This method returns a proof of inclusion for a key.
+
+        Proof is a list of nodes that are necessary to reconstruct the trie.
+
+        .. attention::
+            This method does not RLP-encode the key.
+            If you use encoded keys, you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+
+        Returns
+        -------
+        proof : Proof
+            The proof object for the proof of inclusion
+
+        Raises
+        ------
+        ValueError
+            ValueError is raised if the trie is empty.
+        """
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Cannot generate a proof for empty trie")
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        proof_list = self._get_proof_of_inclusion(
+            self._root, NibblePath(encoded_key), []
+        )
+        return Proof(
+            target_key=encoded_key,
+            root_hash=self.root(),
+            proof=tuple(proof_list),
+            proof_type=b"MPT-POI",
+        )
+
+    def verify_proof_of_inclusion(self, proof: Proof) -> bool:
+        """
+        This method verifies a proof object containing a proof of inclusion.
+
+        Parameters
+        ----------
+        proof : Proof
+            The proof object to verify.
+
+        Returns
+        -------
+        bool
+            True if the proof is valid, False otherwise.
+
+        Raises
+        ------
+        ValueError
+            ValueError is raised if the trie is empty.
+        TypeError
+            TypeError is raised if the proof is not a proof of inclusion.
+        """
+        if proof.type != b"MPT-POI":
+            raise TypeError("The given proof is not a proof of inclusion.")
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Cannot verify a proof for empty trie.")
+
+        # Compare the root hashes
+        if self.root_hash() != keccak_hash(proof.proof[0]):
+            return False
+
+        # Recreate a partial trie from the proof and walk down from root to taget
+        # node.
+        proof_storage = {}
+        for encoded_node in proof.proof:
+            try:
+                proof_storage[Node.into_reference(Node.decode(encoded_node))] = (
+                    encoded_node
+                )
+            except rlp.DecodingError:
+                return False
+        valid = self._verify_proof_of_inclusion(
+            self._root, NibblePath(proof.target_key), proof_storage
+        )
+        # Check if the current trie hash is the sam as the proof root
+        if valid and self.root_hash() == proof.trie_root:
+            return True
+        else:
+            return False
+
+    def get_proof_of_exclusion(self, encoded_key: bytes) -> Proof:
+        """
+        This method returns a proof of exclusion for a key.
+
+        Proof is a list of nodes that are necessary to reconstruct the trie.
+        This method does not RLP-encode the key. If you use encoded keys,
+        you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+
+        Returns
+        -------
+        proof : Proof
+            The Proof object for the proof of exclusion.
+
+        Raises
+        ------
+        ValueError
+            ValueError is raised if the trie is empty.
+        PoeError
+            PoeError is raised if the key is in the trie.
+        """
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Cannot generate a proof for empty trie")
+
+        # Check if the key is in the trie
+        if self.contains(encoded_key):
+            raise PoeError("Cannot generate a proof for a key that is in the trie")
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        path = NibblePath(encoded_key)
+        node, proof_list = self._get_proof_of_exclusion(self._root, path, [])
+
+        # Add a leaf node with the key to the proof
+        proof_list.append(Leaf(path, b"null").encode())
+
+        # If the node is a branch check if i thas a value
+        # Can be None or b'' (b'' is used when trie is in secure mode)
+        if isinstance(node, Branch):
+            if node.data != None and node.data != b"":
+                raise PoeError("This should never happen")
+
+        # If the node is a leaf the key is in the trie
+        if isinstance(node, Leaf):
+            if node.path == path:
+                raise PoeError("This should never happen")
+
+        return Proof(
+            target_key=encoded_key,
+            root_hash=self.root_hash(),
+            proof=tuple(proof_list),
+            proof_type=b"MPT-POE",
+        )
+
+    def verify_proof_of_exclusion(self, proof: Proof) -> bool:
+        """
+        This method verifies a proof of exclusion for a key.
+
+        This method does not RLP-encode the key. If you use encoded keys,
+        you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+        proof: list of bytes
+            Proof of exclusion hash for a key.
+
+        Returns
+        -------
+        bool
+            True if the proof is valid, False otherwise.
+
+        Raises
+        ------
+        ValueError
+            ValueError is raised if the trie is empty.
+        TypeError
+            TypeError is raised if the proof is not a proof of exclusion.
+        """
+        if proof.type != b"MPT-POE":
+            raise TypeError("The given proof is not a proof of exclusion.")
+
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Cannot verify a proof for empty trie")
+
+        # Compare the root hashes
+        if self.root_hash() != keccak_hash(proof.proof[0]):
+            return False
+
+        if Node.decode(proof.proof[-1]).data != b"null":
+            return False
+
+        # Recreate a partial trie from the proof and walk down from root to taget
+        # node.
+        proof_storage = {}
+        for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.
+            # print(type(encoded_node))
+            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
+
+        node, keys_left = self._verify_proof_of_exclusion(
+            self.root(), NibblePath(proof.target_key), proof_storage
+        )
+
+        # There should be no keys left in the proof
+        if len(keys_left.keys()) != 0:
+            return False
+
+        # Check if the result node is valid
+        # If the node is a branch check if it has a value
+        if isinstance(node, Branch):
+            if node.data == None:
+                return False
+
+        # If the node is a leaf the key is in the trie
+
+        if isinstance(node, Leaf):
+            if node.path == NibblePath(proof.target_key):
+                return False
+
+        # Proof passed
+        return True
+
+    # CODEC
+    def encode(self) -> bytes:
+        """Encode the trie into rlp."""
+        storage_list = [
+            _prepare_reference_for_encoding(node) for node in self._storage.values()
+        ]
+        content = [self.root(), storage_list, self._secure]
+        return rlp.encode(content)
+
+    @staticmethod
+    def decode(encoded_data: bytes) -> "MPT":
+        """
+        Decode the trie from rlp.
+
+        Parameters
+        ----------
+        encoded_data : bytes
+            The rlp encoded trie.
+
+        Returns
+        -------
+        MMPT
+            The decoded trie.
+        """
+        sedes = rlp.sedes.List(
+            [
+                rlp.sedes.binary,
+                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.boolean,
+            ]
+        )
+        root, storage_list, secure = rlp.decode(encoded_data, sedes=sedes)
+        storage = {}
+        for encoded_node in storage_list:
+            # Nodes are stored as the RPL encoded version of the full node
+            storage[keccak_hash(encoded_node)] = _prepare_reference_for_usage(
+                encoded_node
+            )
+
+        return MPT(storage=storage, root=root, secure=secure)
+
+    # SUPPORTING METHODS
+    def _get_node(self, node_ref: bytes) -> Node:
+        """This method gets a node from storage."""
+        raw_node = None
+
+        # Okey maybe it is alright like this because an RLP encoded node will
+        # still get decoded
+        # If the node_ref is already a node, just return it
+        if (
+            isinstance(node_ref, Extension)
+            or isinstance(node_ref, Leaf)
+            or isinstance(node_ref, Branch)
+        ):
+            return node_ref
+
+        # Otherwise try to get it from storage or decode it from RLP
+        if len(node_ref) == 32:
+            raw_node = self._storage[node_ref]
+            if isinstance(raw_node, Node):
+                return raw_node
+        else:
+            raw_node = node_ref
+
+        decoded_node = Node.decode(raw_node)
+        if not (
+            isinstance(decoded_node, Extension)
+            or isinstance(decoded_node, Leaf)
+            or isinstance(decoded_node, Branch)
+        ):
+            raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
+        return decoded_node
+
+    def _get(self, node_ref: bytes, path: NibblePath) -> bytes:
+        """
+        Get support method.
+
+        Returns a value associated with provided key.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+
+        Returns
+        -------
+        bytes
+            Value associated with provided key.
+
+        Raises
+        ------
+        KeyNotFoundError
+            KeyError is raised if there is no value assotiated with provided key.
+        ExtensionPathError, BranchPathError, LeafPathError, InvalidNodeError, ExtentionPathError
+            Raised if the path is not valid.
+        """
+        node = self._get_node(node_ref)
+
+        # If path is empty, our travel is over. The key is only in the trie
+        # if this node holds the value of exactly this path.
+        if len(path) == 0:
+            if not _holds_value(node):
+                raise KeyNotFoundError("There is no value stored at this path.")
+            return node
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.
+            if node.path == path:
+                return node
+            else:
+                raise KeyNotFoundError(
+                    "The leaf key and search key do not match."
+                    " Leaf key: {}, search key: {}".format(node.path, path)
+                )
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                return self._get(node.next_ref, rest_path)
+            else:
+                raise ExtensionPathError(
+                    "Something wrong with the path in the extension."
+                    " Extension path: {}, search path: {}".format(node.path, path)
+                )
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                return self._get(branch, path.consume(1))
+            else:
+                raise BranchPathError(
+                    "Branch slot is empty."
+                    " Branch: {}, search path: {}".format(node.branches, path)
+                )
+
+        raise InvalidNodeError("Invalid node type {}".format(type(node)))
+
+    def _contains(self, node_ref: bytes, path: NibblePath) -> bool:
+        """
+        contains support method.
+
+        Only returns the node as close to the end of the path as possible.
+        The main contains method will check if this node has a value, and
+        if this value is the one we're looking for.
+        """
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            return False
+
+        node = self._get_node(node_ref)
+
+        # If path is empty, our travel is over. Main `get` method
+        # will check if this node has a value.
+        if len(path) == 0:
+            return node
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.(we hope its the wrong leaf but
+            # that is up to the main method).
+            return node
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                return self._contains(node.next_ref, rest_path)
+            else:
+                return node
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                return self._contains(branch, path.consume(1))
+            else:
+                # This is the furthest node we can go.
+                return node
+
+        raise InvalidNodeError("Invalid node type {}".format(type(node)))
+
+    def _get_proof_of_inclusion(
+        self, node_ref: bytes, path: NibblePath, proof: dict
+    ) -> dict:
+        """
+        Get proof of inclusion support method.
+
+        Used to iterate over the trie and get a proof of inclusion for a node ref.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+        proof: dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Returns
+        -------
+        dict
+            Dictionary with nodes in the proof up untill now.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no node assotiated with provided key.
+        LeafPathError, InvalidNodeError, ExtentionPathError, BranchPathError
+            Raised if the path is not valid.
+        """
+        # Get the node from the reference
+        node = self._get_node(node_ref)
+
+        # print(type(node))
+
+        if len(path) == 0:
+            # If path is empty, we've found the node.
+            # The node doesnt have to be a leaf.
+            proof.append(node.encode())
+            return proof
+
+        if isinstance(node, Leaf):
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.
+            if node.path == path:
+                proof.append(node.encode())
+                return proof
+            else:
+                raise LeafPathError(
+                    "The leaf key and search key do not match"
+                    " Leaf key: {}, search key: {}".format(node.path, path)
+                )
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                proof.append(node.encode())
+                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)
+            else:
+                raise ExtensionPathError(
+                    "Something wrong with the path in the extension"
+                    " Extension path: {}, search path: {}".format(node.path, path)
+                )
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                proof.append(node.encode())
+                return self._get_proof_of_inclusion(branch, path.consume(1), proof)
+            else:
+                raise BranchPathError(
+                    "Branch slot is empty."
+                    " Branch: {}, search path: {}".format(node.branches, path)
+                )
+
+        raise InvalidNodeError("Unknown node type {}".format(node))
+
+    def _verify_proof_of_inclusion(
+        self, node_ref: bytes, path: NibblePath, proof_storage: dict
+    ) -> bool:
+        """
+        Verify proof of inclusion support method.
+
+        Used to verify a proof of inclusion for a node ref.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+        proof: dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Returns
+        -------
+        bool
+            True if the proof is valid, False otherwise.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no node assotiated with provided key.
+        ExtensionPathError, InvalidNodeError, LeafPathError, BranchPathError, InvalidNodeError
+            Raised if the path is not valid.
+        """
+        # Get the right node from the proof storage
+        if not (
+            isinstance(node_ref, Leaf)
+            or isinstance(node_ref, Extension)
+            or isinstance(node_ref, Branch)
+        ):
+            # Otherwise try to get it from storage or decode it from RLP
+            if len(node_ref) == 32:
+                try:
+                    raw_node = proof_storage[node_ref]
+                except KeyError:
+                    return False
+            else:
+                raw_node = node_ref
+            node = Node.decode(raw_node)
+        else:
+            node = node_ref
+
+        # If path is empty, our travel is over. Main `get` method
+        # will check if this node has a value.
+        if len(path) == 0:
+            # check extension and node, leaf already handeled
+            if isinstance(node, Extension):
+                return False
+            if isinstance(node, Branch):
+                # Check if the branch has data
+                if node.data != None:
+                    return True
+                else:
+                    return False
+            return True
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.
+            if node.path == path:
+                return True
+            else:
+                return False
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                return self._verify_proof_of_inclusion(
+                    node.next_ref, rest_path, proof_storage
+                )
+            else:
+                raise ExtensionPathError(
+                    "Something wrong with the path in the extension."
+                    " Extension path: {}, search path: {}".format(node.path, path)
+                )
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                return self._verify_proof_of_inclusion(
+                    branch, path.consume(1), proof_storage
+                )
+            else:
+                raise BranchPathError(
+                    "Branch slot is empty."
+                    " Branch: {}, search path: {}".format(node.branches, path)
+                )
+
+        raise InvalidNodeError("Unknown node type {}".format(node))
+
+    def _get_proof_of_exclusion(
+        self, node_ref: bytes, path: NibblePath, proof: dict
+    ) -> dict:
+        """
+        Get proof of exclusion support method.
+
+        Used to iterate over the trie and get a proof of exclusion for a node ref.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+        proof: dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Returns
+        -------
+        dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no node assotiated with provided key.
+        """
+        node = self._get_node(node_ref)
+
+        # print(type(node))
+
+        # If path is empty, our travel is over. Main `get` method
+        # will check if this node has a value.
+        if len(path) == 0:
+            proof.append(node.encode())
+            return node, proof
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.(we hope its the wrong leaf but
+            # that is up to the main method).
+            proof.append(node.encode())
+            return node, proof
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                proof.append(node.encode())
+                return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
+            else:
+                return node, proof
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            proof.append(node.encode())
+            if len(branch) > 0:
+                return self._get_proof_of_exclusion(branch, path.consume(1), proof)
+            else:
+                # This is the furthest node we can go.
+                return node, proof
+
+        raise InvalidNodeError("Invalid node type {}".format(type(node)))
+
+    def _verify_proof_of_exclusion(
+        self,
+        node_ref: Union[bytes, Leaf, Branch, Extension],
+        path: NibblePath,
+        proof_storage: dict,
+    ) -> Tuple[bool, dict]:
+        """
+        Verify proof of exclusion support method.
+
+        Used to verify a proof of exclusion for a node ref.
+
+        Parameters
+        ----------
+        node_ref: bytes, Leaf, Branch, Extension
+            Reference to a node or the node itself.
+        path: NibblePath
+            Path to a value.
+        proof: dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Returns
+        -------
+        bool, node_ref
+            True if this the last node in the proof, the next node ref otherwise.
+        proof_storage: dict
+            Dictionary with nodes.
+
+        Raises
+        ------
+        PoeError
+            PoeError when there is something wrong with the proof.
+        InvalidNodeError
+            InvalidNodeError when there is an invalid node in the proof.
+        """
+        # Get the right node from the proof storage
+        if not (
+            isinstance(node_ref, Leaf)
+            or isinstance(node_ref, Extension)
+            or isinstance(node_ref, Branch)
+        ):
+            # Otherwise try to get it from storage or decode it from RLP
+            if len(node_ref) == 32:
+                try:
+                    raw_node = proof_storage[node_ref]
+                except KeyError:
+                    # TODO: Figure out in wich cases this shouldnt be True
+                    # I still dont really trust this statement,
+                    # but it is necessary for the tests to pass
+                    # By checking the proof_dict at the end of the function
+                    # there should be 1 node left in the dict, the null leaf
+                    return True, proof_storage
+            else:
+                raw_node = node_ref
+            node = Node.decode(raw_node)
+        else:
+            node = node_ref
+
+        # Remove the used reference and node from the dictionary
+        if proof_storage.pop(node_ref, None) == None:
+            raise PoeError(
+                "The proof storage returned a node with value None,"
+                " this should not be possible."
+            )
+
+        # If path is empty, our travel is over. Main `get` method
+        # will check if this node has a value.
+        if len(path) == 0:
+            return node, proof_storage
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.(we hope its the wrong leaf but
+            # that is up to the main method).
+            return node, proof_storage
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                return self._verify_proof_of_exclusion(
+                    node.next_ref, rest_path, proof_storage
+                )
+            else:
+                return node, proof_storage
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                return self._verify_proof_of_exclusion(
+                    branch, path.consume(1), proof_storage
+                )
+            else:
+                # This is the furthest node we can go.
+                return node, proof_storage
+
+        raise InvalidNodeError("Invalid node type {}".format(type(node)))
+
+    def _update(self, node_ref: bytes, path: NibblePath, value: bytes) -> bytes:
+        """
+        Update support method.
+
+        Updates a value associated with provided key.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+        value: bytes
+            Value to be stored.
+
+        Returns
+        -------
+        bytes
+            New root of the trie.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no value assotiated with provided key.
+        """
+        if not node_ref or node_ref == Node.EMPTY_HASH:
+            return self._store_node(Leaf(path, value))
+
+        node = self._get_node(node_ref)
+
+        if type(node) == Leaf:
+            # If we're updating the leaf there are 2 possible ways:
+            # 1. Path is equals to the rest of the key. Then we should
+            #    just update value of this leaf.
+            # 2. Path differs. Then we should split this node into several nodes.
+
+            if node.path == path:
+                # Path is the same. Just change the value.
+                node.data = value
+                return self._store_node(node)
+
+            # If we are here, we have to split the node.
+
+            # Find the common part of the key and leaf's path.
+            common_prefix = path.common_prefix(node.path)
+
+            # Cut off the common part.
+            path.consume(len(common_prefix))
+            node.path.consume(len(common_prefix))
+
+            # Create branch node to split paths.
+            branch_reference = self._create_branch_node(
+                path, value, node.path, node.data
+            )
+
+            # If common part isn't empty, we have to create an extension node before branch node.
+            # Otherwise, we need just branch node.
+            if len(common_prefix) != 0:
+                return self._store_node(Extension(common_prefix, branch_reference))
+            else:
+                return branch_reference
+
+        elif type(node) == Extension:
+            # If we're updating an extenstion there are 2 possible ways:
+            # 1. Key starts with the extension node's path.
+            #    Then we just go ahead and all the work will be done there.
+            # 2. Key doesn't start with extension node's path. Then we have to split extension node.
+
+            if path.starts_with(node.path):
+                # Just go ahead.
+                new_reference = self._update(
+                    node.next_ref, path.consume(len(node.path)), value
+                )
+                return self._store_node(Extension(node.path, new_reference))
+
+            # Split extension node.
+
+            # Find the common part of the key and extension's path.
+            common_prefix = path.common_prefix(node.path)
+
+            # Cut off the common part.
+            path.consume(len(common_prefix))
+            node.path.consume(len(common_prefix))
+
+            # Create an empty branch node. It may have or have not the value depending on the length
+            # of the rest of the key.
+            branches = [b""] * 16
+            branch_value = value if len(path) == 0 else b""
+
+            # If needed, create leaf branch for the value we're inserting.
+            self._create_branch_leaf(path, value, branches)
+            # If needed, create an extension node for the rest of the extension's path.
+            self._create_branch_extension(node.path, node.next_ref, branches)
+
+            branch_reference = self._store_node(Branch(branches, branch_value))
+
+            # If common part isn't empty, we have to create an extension node before branch node.
+            # Otherwise, we need just branch node.
+            if len(common_prefix) != 0:
+                return self._store_node(Extension(common_prefix, branch_reference))
+            else:
+                return branch_reference
+
+        elif type(node) == Branch:
+            # For branch node things are easy.
+            # 1. If key is empty, just store value in this node.
+            # 2. If key isn't empty, just call `_update` with appropiate branch reference.
+
+            if len(path) == 0:
+                return self._store_node(Branch(node.branches, value))
+
+            idx = path.at(0)
+            new_reference = self._update(node.branches[idx], path.consume(1), value)
+
+            node.branches[idx] = new_reference
+
+            return self._store_node(node)
+
+    def _create_branch_node(
+        self, path_a: NibblePath, value_a: bytes, path_b: NibblePath, value_b: bytes
+    ) -> bytes:
+        """
+        Create a branch node with up to two leaves and maybe value.
+
+        Parameters
+        ----------
+        path_a: NibblePath
+            Path to a leaf.
+        value_a: bytes
+            Value to be stored in a leaf.
+        path_b: NibblePath
+            Path to a leaf.
+        value_b: bytes
+            Value to be stored in a leaf.
+
+        Returns
+        -------
+        bytes
+            Reference to created node.
+        """
+
+        assert len(path_a) != 0 or len(path_b) != 0
+
+        branches = [b""] * 16
+
+        branch_value = b""
+        if len(path_a) == 0:
+            branch_value = value_a
+        elif len(path_b) == 0:
+            branch_value = value_b
+
+        self._create_branch_leaf(path_a, value_a, branches)
+        self._create_branch_leaf(path_b, value_b, branches)
+
+        return self._store_node(Branch(branches, branch_value))
+
+    def _create_branch_leaf(
+        self, path: NibblePath, value: bytes, branches: List[bytes]
+    ) -> ...:
+        """
+        If path isn't empty, creates leaf node and stores reference in appropriate branch.
+
+        Parameters
+        ----------
+        path: NibblePath
+            Path to a leaf.
+        value: bytes
+            Value to be stored in a leaf.
+        branches: list of bytes
+            List of references to nodes.
+
+        Returns
+        -------
+        None
+        """
+        if len(path) > 0:
+            idx = path.at(0)
+
+            leaf_ref = self._store_node(Leaf(path.consume(1), value))
+            branches[idx] = leaf_ref
+
+    def _create_branch_extension(
+        self, path: NibblePath, next_ref: bytes, branches: List[bytes]
+    ) -> ...:
+        """
+        If needed, create an extension node and stores reference in appropriate branch.
+        Otherwise just stores provided reference.
+
+        Parameters
+        ----------
+        path: NibblePath
+            Path to an extension node.
+        next_ref: bytes
+            Reference to a node.
+        branches: list of bytes
+            List of references to nodes.
+
+        Returns
+        -------
+        None
+        """
+        assert (
+            len(path) >= 1
+        ), "Path for extension node should contain at least one nibble"
+
+        if len(path) == 1:
+            branches[path.at(0)] = next_ref
+        else:
+            idx = path.at(0)
+            reference = self._store_node(Extension(path.consume(1), next_ref))
+            branches[idx] = reference
+
+    def _store_node(self, node: Node) -> bytes:
+        """
+        Build the reference from the node and if needed saves node in the storage.
+
+        Parameters
+        ----------
+        node: Node
+            Node to be stored.
+
+        Returns
+        -------
+        bytes
+            Reference to the node.
+        """
+        reference = Node.into_reference(node)
+        if len(reference) == 32:
+            self._storage[reference] = node.encode()
+        return reference
+
+    class _DeleteAction(Enum):
+        """
+        Enum that shows which action was performed on the previous step of the deletion.
+        """
+
+        # Node was deleted. Returned value should be (_DeleteAction, None).
+        DELETED = (1,)
+        # Node was updated. Returned value should be (_DeleteAction, new_node_reference)
+        UPDATED = (2,)
+        # Branch became useless. Returned value should be
+        # (_DeleteAction, (path_to_new_reference, new_node_reference))
+        USELESS_BRANCH = 3
+
+    def _delete(
+        self, node_ref: bytes, path: NibblePath
+    ) -> Tuple[_DeleteAction, Optional[bytes]]:
+        """
+        Delete method helper.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to the node.
+        path: NibblePath
+            Path to the node.
+
+        Returns
+        -------
+        _DeleteAction
+            Action that was performed on the previous step of the deletion.
+
+        """
+
+        node = self._get_node(node_ref)
+
+        if type(node) == Leaf:
+            # If it's leaf node, then it's either node we need or incorrect key provided.
+            if path == node.path:
+                return MPT._DeleteAction.DELETED, None
+            else:
+                raise LeafPathError("Incorrect or non existing path provided")
+
+        elif type(node) == Extension:
+            # Extension node can't be removed directly, it passes delete request to the next node.
+            # After that several options are possible:
+            # 1. Next node was deleted. Then this node should be deleted too.
+            # 2. Next node was updated. Then we should update stored reference.
+            # 3. Next node was useless branch. Then we have to update our node depending on the next node type.
+
+            if not path.starts_with(node.path):
+                raise ExtensionPathError("Incorrect path provided")
+
+            action, info = self._delete(node.next_ref, path.consume(len(node.path)))
+
+            if action == MPT._DeleteAction.DELETED:
+                # Next node was deleted. This node should be deleted also.
+                return action, None
+            elif action == MPT._DeleteAction.UPDATED:
+                # Next node was updated. Update this node too.
+                child_ref = info
+                new_ref = self._store_node(Extension(node.path, child_ref))
+                return action, new_ref
+            elif action == MPT._DeleteAction.USELESS_BRANCH:
+                # Next node was useless branch.
+                stored_path, stored_ref = info
+
+                child = self._get_node(stored_ref)
+
+                new_node = None
+                if type(child) == Leaf:
+                    # If next node is the leaf, our node is unnecessary.
+                    # Concat our path with leaf path and return reference to the leaf.
+                    path = NibblePath.combine(node.path, child.path)
+                    new_node = Leaf(path, child.data)
+                elif type(child) == Extension:
+                    # If next node is the extension, merge this and next node into one.
+                    path = NibblePath.combine(node.path, child.path)
+                    new_node = Extension(path, child.next_ref)
+                elif type(child) == Branch:
+                    # If next node is the branch, concatenate paths and update stored reference.
+                    path = NibblePath.combine(node.path, stored_path)
+                    new_node = Extension(path, stored_ref)
+
+                new_reference = self._store_node(new_node)
+                return MPT._DeleteAction.UPDATED, new_reference
+
+        elif type(node) == Branch:
+            # For branch node things are quite complicated.
+            # If rest of the key is empty and there is stored value, just clear value field.
+            # Otherwise call _delete for the appropriate branch.
+            # At this step we will have delete action and (possibly) index of the branch we're working with.
+            #
+            # Then, if next node was updated or was useless branch, just update reference.
+            # If `_DeleteAction` is `DELETED` then either the next node or value of this node was removed.
+            # We have to check if there is at least 2 branches or 1 branch and value still persist in this node.
+            # If there are no branches and no value left, delete this node completely.
+            # If there is a value but no branches, create leaf node with value and empty path
+            # and return `USELESS_BRANCH` action.
+            # If there is an only branch and no value, merge nibble of this branch and path of the underlying node
+            # and return `USELESS_BRANCH` action.
+            # Otherwise our branch isn't useless and was updated.
+
+            action = None
+            idx = None
+            info = None
+
+            assert (
+                len(path) != 0 or len(node.data) != 0
+            ), "Empty path or empty branch node in _delete"
+
+            # Decide if we need to remove value of this node or go deeper.
+            if len(path) == 0 and len(node.data) == 0:
+                # This branch node has no value thus we can't delete it.
+                raise BranchPathError("Branch node has no value so cannot be deleted")
+            elif len(path) == 0 and len(node.data) != 0:
+                node.data = b""
+                action = MPT._DeleteAction.DELETED
+            else:
+                # Store idx of the branch we're working with.
+                idx = path.at(0)
+
+                if len(node.branches[idx]) == 0:
+                    raise BranchPathError(
+                        "Empty branch in _delete, could not delete the value."
+                    )
+
+                action, info = self._delete(node.branches[idx], path.consume(1))
+                node.branches[idx] = b""
+
+            if action == MPT._DeleteAction.DELETED:
+                non_empty_count = sum(
+                    map(lambda x: 1 if len(x) > 0 else 0, node.branches)
+                )
+
+                if non_empty_count == 0 and len(node.data) == 0:
+                    # Branch node is empty, just delete it.
+                    return MPT._DeleteAction.DELETED, None
+                elif non_empty_count == 0 and len(node.data) != 0:
+                    # No branches, just value.
+                    path = NibblePath([])
+                    reference = self._store_node(Leaf(path, node.data))
+
+                    return MPT._DeleteAction.USELESS_BRANCH, (
+                        path,
+                        reference,
+                    )
+                elif non_empty_count == 1 and len(node.data) == 0:
+                    # No value and one branch
+                    return self._build_new_node_from_last_branch(node.branches)
+                else:
+                    # Branch has value and 1+ branches or no value and 2+ branches.
+                    # It isn't useless, so action is `UPDATED`.
+                    reference = self._store_node(node)
+                    return MPT._DeleteAction.UPDATED, reference
+            elif action == MPT._DeleteAction.UPDATED:
+                # Just update reference.
+                next_ref = info
+                node.branches[idx] = next_ref
+                reference = self._store_node(node)
+                return MPT._DeleteAction.UPDATED, reference
+            elif action == MPT._DeleteAction.USELESS_BRANCH:
+                # Just update reference.
+                _, next_ref = info
+                node.branches[idx] = next_ref
+                reference = self._store_node(node)
+                return MPT._DeleteAction.UPDATED, reference
+
+    def _build_new_node_from_last_branch(
+        self, branches: List[bytes]
+    ) -> Tuple[_DeleteAction, bytes]:
+        """
+        Combine nibble of the only branch left with underlying node and creates new node.
+
+        Parameters
+        ----------
+        branches : list of bytes
+            List of references to the branches.
+
+        Returns
+        -------
+        tuple
+            Tuple of `_DeleteAction` and reference to the new node.
+
+        Raises
+        ------
+        KeyError
+            If there is no branches left.
+
+        """
+
+        # Find the index of the only stored branch.
+        idx = 0
+        for i in range(len(branches)):
+            if len(branches[i]) > 0:
+                idx = i
+                break
+
+        # Path in leaf will contain one nibble (at this step).
+        prefix_nibble = NibblePath([idx], offset=1)
+
+        child = self._get_node(branches[idx])
+
+        path = None
+        node = None
+
+        # Build new node.
+        # If next node is leaf or extension, merge it.
+        # If next node is branch, create an extension node with one nibble in path.
+        if type(child) == Leaf:
+            path = NibblePath.combine(prefix_nibble, child.path)
+            node = Leaf(path, child.data)
+        elif type(child) == Extension:
+            path = NibblePath.combine(prefix_nibble, child.path)
+            node = Extension(path, child.next_ref)
+        elif type(child) == Branch:
+            path = prefix_nibble
+            node = Extension(path, branches[idx])
+
+        reference = self._store_node(node)
+
+        return MPT._DeleteAction.USELESS_BRANCH, (path, reference)
-- 
2.43.0


From 461e2d403c5f9ba2da451ab4854a40115ac34360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 02/38] fix: MPT.contains was true for absent keys below a
 branch that holds a value

---
 src/pymt/mpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index f3c3b8b..e9f36d2 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -216,8 +216,9 @@ class MPT:
         node = self._contains(self._root, path)
 
         # If the node is a branch check if it has a value
+        # (the search may also have stopped here because a branch slot is empty)
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return True
             else:
                 return False
-- 
2.43.0


From ba42d17d2725789da84af0f017e584a5305ce1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 03/38] fix: inclusion proofs were produced and accepted for
 absent prefix keys

---
 src/pymt/mpt.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index e9f36d2..7d96901 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -718,6 +718,8 @@ class MPT:
         if len(path) == 0:
             # If path is empty, we've found the node.
             # The node doesnt have to be a leaf.
+            if not _holds_value(node):
+                raise KeyNotFoundError("There is no value stored at this path.")
             proof.append(node.encode())
             return proof
 
@@ -812,13 +814,8 @@ class MPT:
             # check extension and node, leaf already handeled
             if isinstance(node, Extension):
                 return False
-            if isinstance(node, Branch):
-                # Check if the branch has data
-                if node.data != None:
-                    return True
-                else:
-                    return False
-            return True
+            # Check if the branch has data or the path of the leaf is used up
+            return _holds_value(node)
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From c1982cf215c1bcfaf00c1aa5ffc83b41680877e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 04/38] fix: genuine inclusion proofs of tries with a root node
 under 32 bytes were rejected

---
 src/pymt/mpt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 7d96901..aba6e42 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -362,8 +362,10 @@ class MPT:
         valid = self._verify_proof_of_inclusion(
             self._root, NibblePath(proof.target_key), proof_storage
         )
-        # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
+        # Check if the current trie hash is the sam as the proof root. The proof
+        # holds the root itself, which for a small trie is the encoded root node.
+        proof_root_hash = MPT({}, proof.trie_root).root_hash()
+        if valid and self.root_hash() == proof_root_hash:
             return True
         else:
             return False
-- 
2.43.0


From 8b44644f894c806652bcd54f47e1434e7b61c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 05/38] fix: exclusion proofs were accepted for present keys
 and rejected for some absent ones

Verification accepted truncated proofs (a missing node counted as success) and
compared the final leaf with the whole key instead of the rest of the path.
Generation left out the extension node at which the key diverges, so genuine
proofs failed. The diverging extension is now part of the proof, a missing node
is a rejection and the final node is compared with the rest of the path.
---
 src/pymt/mpt.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index aba6e42..b548625 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -475,10 +475,15 @@ class MPT:
             # print(type(encoded_node))
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
+        path = NibblePath(proof.target_key)
         node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), NibblePath(proof.target_key), proof_storage
+            self.root(), path, proof_storage
         )
 
+        # The proof has to reach the node that shows that the key is missing
+        if node is None:
+            return False
+
         # There should be no keys left in the proof
         if len(keys_left.keys()) != 0:
             return False
@@ -486,13 +491,12 @@ class MPT:
         # Check if the result node is valid
         # If the node is a branch check if it has a value
         if isinstance(node, Branch):
-            if node.data == None:
+            if len(path) == 0 and len(node.data) != 0:
                 return False
 
-        # If the node is a leaf the key is in the trie
-
+        # If the node is a leaf with the rest of the path the key is in the trie
         if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
+            if node.path == path:
                 return False
 
         # Proof passed
@@ -906,6 +910,8 @@ class MPT:
                 proof.append(node.encode())
                 return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
             else:
+                # The diverging extension is what shows that the key is missing.
+                proof.append(node.encode())
                 return node, proof
 
         elif type(node) is Branch:
@@ -965,12 +971,8 @@ class MPT:
                 try:
                     raw_node = proof_storage[node_ref]
                 except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
+                    # The proof stops before it shows that the key is missing
+                    return None, proof_storage
             else:
                 raw_node = node_ref
             node = Node.decode(raw_node)
-- 
2.43.0


From 77092138534d426867a99b3d98e6cece0743c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 06/38] fix: verify_proof_of_exclusion ignored the root
 recorded in the proof

---
 src/pymt/mpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index b548625..2443bcd 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -499,8 +499,8 @@ class MPT:
             if node.path == path:
                 return False
 
-        # Proof passed
-        return True
+        # Proof passed if it was made for the current root
+        return self.root_hash() == MPT({}, proof.trie_root).root_hash()
 
     # CODEC
     def encode(self) -> bytes:
-- 
2.43.0


From ac2d9f81287ef3c1126d0720409f7859e4cca485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 07/38] fix: exclusion proofs could not be verified by a trie
 opened with its encoded root node

---
 src/pymt/mpt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 2443bcd..39d43f7 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -476,8 +476,10 @@ class MPT:
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
         path = NibblePath(proof.target_key)
+        # A trie may have been opened with its encoded root node
+        root_ref = self.root() if len(self.root()) <= 32 else self.root_hash()
         node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), path, proof_storage
+            root_ref, path, proof_storage
         )
 
         # The proof has to reach the node that shows that the key is missing
-- 
2.43.0


From 2d511f9fa4ca1bf4faf61d3f648d1ec6b23ef932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 08/38] fix: hashing and comparing tries always raised
 ValueError

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 39d43f7..571065b 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -105,7 +105,7 @@ class MPT:
         self.delete(encoded_key)
 
     def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
+        return int(keccak_hash(self.root_hash(), hexdigest=True), 16)
 
     def __eq__(self, other: "MPT") -> bool:
         if not isinstance(other, MPT):
-- 
2.43.0


From 3ae8f37e04614879b0e7d444759ca81f03cc7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 09/38] fix: encoding a trie that was emptied by deletes raised
 TypeError

---
 src/pymt/mpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 571065b..7a120a4 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -510,7 +510,8 @@ class MPT:
         storage_list = [
             _prepare_reference_for_encoding(node) for node in self._storage.values()
         ]
-        content = [self.root(), storage_list, self._secure]
+        root = self.root_hash() if self.root() is None else self.root()
+        content = [root, storage_list, self._secure]
         return rlp.encode(content)
 
     @staticmethod
-- 
2.43.0


From c1efdd166c50ebbd095e72fd55e57aee8dc99e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 10/38] fix: tries created with default arguments shared their
 storages

---
 src/pymt/empt.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9e7c459..c55a980 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -117,8 +117,8 @@ class EMPT(MutableMapping):
 
     def __init__(
         self,
-        trie_storage={},
-        data_storage={},
+        trie_storage=...,
+        data_storage=...,
         root: Union[bytes, None] = None,
         secure: bool = False,
     ) -> ...:
@@ -165,6 +165,11 @@ class EMPT(MutableMapping):
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        # Every trie gets its own storages
+        if trie_storage is ...:
+            trie_storage = {}
+        if data_storage is ...:
+            data_storage = {}
         if data_storage is None:
             raise TypeError(
                 "The data storage must be set when the trie is in FULL mode"
@@ -422,7 +427,7 @@ class SparseEMPT:
     """
 
     def __init__(
-        self, trie_storage={}, root: Union[bytes, None] = None, secure: bool = False
+        self, trie_storage=..., root: Union[bytes, None] = None, secure: bool = False
     ):
         """
         Initialize the sparse storage EMPT.
@@ -442,6 +447,8 @@ class SparseEMPT:
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        if trie_storage is ...:
+            trie_storage = {}
         self._trie = MPT(trie_storage, root, secure=secure)
 
     # DUNDER METHODS
-- 
2.43.0


From a04efe021498c4a0940ced3600408899574ad886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 11/38] fix: bytearray values were rejected although they are
 documented as supported

---
 src/pymt/empt.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index c55a980..2609f99 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -90,6 +90,13 @@ class DataReference:
         return ref
 
 
+def _make_reference(key: bytes, value: Any) -> DataReference:
+    """Create the reference of a value, encoding it if it is not bytes already."""
+    if isinstance(value, (bytes, bytearray)):
+        return DataReference(key, bytes(value))
+    return DataReference(key, value.encode_rlp())
+
+
 class EMPT(MutableMapping):
     """
     This class is a wrapper for a storage class that implements the MPT.
@@ -255,11 +262,7 @@ class EMPT(MutableMapping):
         data = self._data_storage[key]
         ref = self._trie.get(key)
         ref = DataReference.decode(ref)
-        if not isinstance(data, (bytes, bytearray)):
-            # Encode if not already bytes
-            expected = DataReference(key, data.encode_rlp())
-        else:
-            expected = DataReference(key, data)
+        expected = _make_reference(key, data)
         if ref != expected:
             raise InvalidReferenceError(
                 "The reference does not match the expected data"
@@ -301,10 +304,7 @@ class EMPT(MutableMapping):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
 
         # Create a reference, update the trie and add the data to the storage
-        if not isinstance(value, (bytes, bytearray)):
-            ref = DataReference(key, value.encode_rlp())
-        else:
-            ref = DataReference(key, value)
+        ref = _make_reference(key, value)
         self._trie.update(key, ref.encode())
         self._data_storage[key] = value
 
@@ -530,11 +530,10 @@ class SparseEMPT:
                         type(value)
                     )
                 )
-            value = value.encode_rlp()
 
         if not isinstance(key, bytes):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
-        ref = DataReference(key, value)
+        ref = _make_reference(key, value)
         self._trie.update(key, ref.encode())
 
     def delete(self, key: bytes) -> ...:
-- 
2.43.0


From e7b6211436c4b5e4ed53c7807936609f715bca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 12/38] fix: EMPT.build_trie failed on every trie that was not
 empty

It changed the storage while iterating over it, kept the old root and could
not reference objects with an RLP codec.
---
 src/pymt/empt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 2609f99..21bd99f 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -241,12 +241,13 @@ class EMPT(MutableMapping):
             database grows, the time it takes to build the trie will increase.
         """
         # Delete all the nodes in the trie
-        for key in self._trie._storage.keys():
+        for key in list(self._trie._storage.keys()):
             del self._trie._storage[key]
+        self._trie = MPT(self._trie._storage, secure=self._trie.secure)
 
         # Build the new trie
         for key in self._data_storage.keys():
-            ref = DataReference(key, self._data_storage[key])
+            ref = _make_reference(key, self._data_storage[key])
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
-- 
2.43.0


From 442efea511f19c3192435daddb468ffe09cd6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 13/38] fix: SparseEMPT.update raised TypeError for objects
 with an RLP codec

---
 src/pymt/empt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 21bd99f..3247958 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -519,13 +519,13 @@ class SparseEMPT:
             have a .encode_rlp() and .decode_rlp() method.
         """
         if not isinstance(value, (bytes, bytearray)):
-            if not hasattr(value.encode_rlp):
+            if not hasattr(value, "encode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have an encode_rlp method, not {}".format(
                         type(value)
                     )
                 )
-            if not hasattr(value.decode_rlp):
+            if not hasattr(value, "decode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have a decode_rlp method, not {}".format(
                         type(value)
-- 
2.43.0


From 068b49e598358da756f4e72a685091f87eaa85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 14/38] fix: SparseEMPT.get_root_trie always raised TypeError

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 3247958..2d1dd82 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -487,7 +487,7 @@ class SparseEMPT:
 
         The root trie is a trie that only contains the root of the trie.
         """
-        return RootEMPT(mode=b"ROOT", secure=self._trie.secure, root=self._trie.root())
+        return RootEMPT(secure=self._trie.secure, root=self._trie.root())
 
     # TRIE METHODS
     def get_reference(self, key: bytes) -> DataReference:
-- 
2.43.0


From cd73d8e0e819353ee9852178d78851ed7065f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 15/38] fix: data references with different keys and data could
 compare equal

The hash of the concatenated key and data does not tell where the key ends.
---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 2d1dd82..08053ff 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -55,7 +55,7 @@ class DataReference:
     def __eq__(self, other) -> bool:
         if not isinstance(other, DataReference):
             return False
-        return self.hash == other.hash
+        return self.key == other.key and self.data == other.data
 
     def __hash__(self) -> int:
         return int(keccak_hash(self._key + self._data, hexdigest=True), 16)
-- 
2.43.0


From 570e3db413709970c1fd84fe1b485e552af0eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 16/38] fix: leaves added after make_tree were missing from the
 Merkle root

---
 src/pymt/merkletools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 5fb1904..19a1d2b 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -112,6 +112,7 @@ class MerkleTools(object):
             value = bytearray.fromhex(value)
         else:
             value = bytearray(value)
+        self.is_ready = False
         self.leaves.append(value)
 
     def get_leaf(self, index: int) -> str:
-- 
2.43.0


From 753a0fe52120f5805ef4212263a79639df218f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 17/38] fix: comparing a Merkle tree with an unhashable object
 raised TypeError

---
 src/pymt/merkletools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 19a1d2b..2436a3f 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -66,6 +66,8 @@ class MerkleTools(object):
 
     def __eq__(self, other: "MerkleTools") -> bool:
         """Check if two Merkle trees are equal."""
+        if not isinstance(other, MerkleTools):
+            return False
         return self.__hash__() == other.__hash__()
 
     def __repr__(self) -> str:
-- 
2.43.0


From 7fe7849c2edf1f702d37b8f0ec1f3e0993b364c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 18/38] fix: secure Merkle trees rejected every genuine
 inclusion proof

---
 src/pymt/mt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index d9bbe08..7d34785 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -153,6 +153,9 @@ class MerkleTree(MerkleTools):
 
         merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
+        if self.secure:
+            # The leaves of a secure tree are the hashes of the values
+            target_hash = self.hash_function(target_hash).digest()
 
         try:
             valid = super().verify_proof_of_inclusion(
-- 
2.43.0


From 8614bae5ec630971e5f4db4fcc0e42a7dbd87bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 19/38] fix: Merkle trees accepted inclusion proofs for the
 content of inner nodes

---
 src/pymt/mt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index 7d34785..16e06d8 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -157,6 +157,10 @@ class MerkleTree(MerkleTools):
             # The leaves of a secure tree are the hashes of the values
             target_hash = self.hash_function(target_hash).digest()
 
+        # An inner node also hashes up to the root, but it is not a leaf
+        if target_hash not in self.leaves:
+            return False
+
         try:
             valid = super().verify_proof_of_inclusion(
                 str_proof, merkle_root=merkle_root, target_hash=target_hash
-- 
2.43.0


From a3d4426852cd7c19379a7d11b6392fb5874dfbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 20/38] fix: proofs produced by a MerkleTree could not be
 encoded to JSON or decoded from RLP

Their steps are (side, hash) pairs; both codecs only handled flat lists.
---
 src/pymt/proof.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 774869e..d9894cf 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -159,7 +159,12 @@ class Proof:
         for key, value in content.items():
             if key.lower() == "proof":
                 if "MT" in self._type.decode():
-                    content[key] = [i.decode() for i in value]
+                    content[key] = [
+                        i.decode()
+                        if isinstance(i, bytes)
+                        else [j.decode() for j in i]
+                        for i in value
+                    ]
                 elif "MPT" in self._type.decode():
                     raise NotImplementedError(
                         "Encoding MPT proofs is not supported yet"
@@ -188,7 +193,10 @@ class Proof:
             # Build the mpt proof from string
             proof = []
             for i in encoded_proof_list:
-                proof.append(i.encode())
+                if isinstance(i, list):
+                    proof.append(tuple(j.encode() for j in i))
+                else:
+                    proof.append(i.encode())
 
         else:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
@@ -254,14 +262,20 @@ class Proof:
                 rlp.sedes.binary,
                 rlp.sedes.binary,
                 rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.CountableList(rlp.sedes.raw),
             ]
         )
         decoded = rlp.decode(rlp_bytes, sedes=sedes)
+        # The steps of a Merkle tree proof are (side, hash) pairs
+        step_sedes = rlp.sedes.CountableList(rlp.sedes.binary)
+        steps = tuple(
+            i if isinstance(i, bytes) else step_sedes.deserialize(i)
+            for i in decoded[4]
+        )
         proof = Proof(
             target_key=decoded[2],
             root_hash=decoded[3],
-            proof=decoded[4],
+            proof=steps,
             proof_type=decoded[0],
         )
         proof._timestamp = decoded[1]
-- 
2.43.0


From 11b06852f874e11fd8345dbe3e4a73bfa042cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 21/38] fix: encryption key pairs could neither encrypt nor
 decrypt

The sealed message is signed internally, which the role override refused.
---
 src/pymt/keypairs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index afbcd57..451bd3a 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -224,7 +224,7 @@ class RsaKeyPair(AbstractKeyPair):
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": self.sign(ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
             }
         ).encode("utf-8")
 
@@ -265,7 +265,9 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not self.signature_valid(ciphertext, signature, sender_public_key):
+        if not RsaKeyPair.signature_valid(
+            self, ciphertext, signature, sender_public_key
+        ):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
-- 
2.43.0


From 6d985fc0054957ecbeb917d59b08e64684259c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 22/38] fix: hashing a key pair raised TypeError

---
 src/pymt/keypairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 451bd3a..bfbde3f 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -57,7 +57,7 @@ class RsaKeyPair(AbstractKeyPair):
         return f"RsaKeyPair(nickname={self._nickname}, public_key={self.public_key_string})"
 
     def __hash__(self) -> int:
-        return Utils.hash_data(self.public_key)
+        return int(Utils.hash_data(self.public_key), 16)
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 622177c0bb8b010ada51c75b8d80493f82e323a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 23/38] fix: no exclusion proof for keys that end at an empty
 slot of a branch with a value

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 7a120a4..9201545 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -414,7 +414,7 @@ class MPT:
         # If the node is a branch check if i thas a value
         # Can be None or b'' (b'' is used when trie is in secure mode)
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 raise PoeError("This should never happen")
 
         # If the node is a leaf the key is in the trie
-- 
2.43.0


From 605910a0c0c116fee41139d153135e87b2d5ceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 24/38] fix: proofs with nodes altered in unused bits were
 accepted

---
 src/pymt/mpt.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 9201545..7ee5ac6 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -354,11 +354,13 @@ class MPT:
         proof_storage = {}
         for encoded_node in proof.proof:
             try:
-                proof_storage[Node.into_reference(Node.decode(encoded_node))] = (
-                    encoded_node
-                )
+                node = Node.decode(encoded_node)
             except rlp.DecodingError:
                 return False
+            # An altered node can decode to the same node as the genuine one
+            if node.encode() != encoded_node:
+                return False
+            proof_storage[Node.into_reference(node)] = encoded_node
         valid = self._verify_proof_of_inclusion(
             self._root, NibblePath(proof.target_key), proof_storage
         )
@@ -472,8 +474,11 @@ class MPT:
         # node.
         proof_storage = {}
         for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.
-            # print(type(encoded_node))
-            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
+            node = Node.decode(encoded_node)
+            # An altered node can decode to the same node as the genuine one
+            if node.encode() != encoded_node:
+                return False
+            proof_storage[Node.into_reference(node)] = encoded_node
 
         path = NibblePath(proof.target_key)
         # A trie may have been opened with its encoded root node
-- 
2.43.0


From 1daf83467ca46963ce96bcd03c6767b9abdaf52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 25/38] fix: proofs of tries with a small root were rejected by
 a trie opened with the root hash

---
 src/pymt/mpt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 7ee5ac6..4acb801 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -361,8 +361,10 @@ class MPT:
             if node.encode() != encoded_node:
                 return False
             proof_storage[Node.into_reference(node)] = encoded_node
+        # The root is known by its hash, however small the root node is
+        proof_storage[self.root_hash()] = proof.proof[0]
         valid = self._verify_proof_of_inclusion(
-            self._root, NibblePath(proof.target_key), proof_storage
+            self.root_hash(), NibblePath(proof.target_key), proof_storage
         )
         # Check if the current trie hash is the sam as the proof root. The proof
         # holds the root itself, which for a small trie is the encoded root node.
@@ -481,10 +483,11 @@ class MPT:
             proof_storage[Node.into_reference(node)] = encoded_node
 
         path = NibblePath(proof.target_key)
-        # A trie may have been opened with its encoded root node
-        root_ref = self.root() if len(self.root()) <= 32 else self.root_hash()
+        # The root is known by its hash, however small the root node is
+        proof_storage.pop(Node.into_reference(Node.decode(proof.proof[0])), None)
+        proof_storage[self.root_hash()] = proof.proof[0]
         node, keys_left = self._verify_proof_of_exclusion(
-            root_ref, path, proof_storage
+            self.root_hash(), path, proof_storage
         )
 
         # The proof has to reach the node that shows that the key is missing
-- 
2.43.0


From 2a325c1d039ff5fafb63a32f864a9445a905c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 26/38] fix: malformed JSON proofs were decoded to other proofs

---
 src/pymt/proof.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index d9894cf..bab7205 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -191,6 +191,12 @@ class Proof:
 
         elif "MT" in json_proof["proof_type"]:
             # Build the mpt proof from string
+            if not isinstance(encoded_proof_list, list):
+                raise TypeError(
+                    "Invalid proof, type should be list, not {}".format(
+                        type(encoded_proof_list)
+                    )
+                )
             proof = []
             for i in encoded_proof_list:
                 if isinstance(i, list):
-- 
2.43.0


From 306a86a93562397a13f412f4c2f974c327b791ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 27/38] fix: fields of sealed messages could be exchanged
 without being noticed

---
 src/pymt/keypairs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index bfbde3f..fbf1475 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -218,13 +218,18 @@ class RsaKeyPair(AbstractKeyPair):
         cipher_aes = AES.new(session_key, AES.MODE_EAX)
         ciphertext, tag = cipher_aes.encrypt_and_digest(data)
 
+        # Sign all fields, otherwise they can be exchanged without being noticed
+        signature = RsaKeyPair.sign(
+            self, enc_session_key + cipher_aes.nonce + tag + ciphertext
+        )
+
         encrypted_data = json.dumps(
             {
                 "enc_session_key": enc_session_key.hex(),
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
+                "signature": signature.hex(),
             }
         ).encode("utf-8")
 
@@ -266,7 +271,10 @@ class RsaKeyPair(AbstractKeyPair):
         signature = bytes.fromhex(data["signature"])
 
         if not RsaKeyPair.signature_valid(
-            self, ciphertext, signature, sender_public_key
+            self,
+            enc_session_key + nonce + tag + ciphertext,
+            signature,
+            sender_public_key,
         ):
             raise ValueError("Invalid signature.")
 
-- 
2.43.0


From f1d6c7282a01a5540ee11724b14d0bdf102b5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 28/38] fix: key data with an exchanged private key was loaded

---
 src/pymt/keypairs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index fbf1475..a7a3642 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -287,6 +287,13 @@ class RsaKeyPair(AbstractKeyPair):
         return decrypted_data
 
     # CODEC
+    def _check_key_data(self, key_data: dict) -> ...:
+        """Raise a ValueError if the loaded key is not the key that was saved."""
+        if not self._key_pair.has_private():
+            raise ValueError("The saved data does not contain a private key.")
+        if RSA.import_key(key_data["public_key"]) != self._key_pair.publickey():
+            raise ValueError("The saved private key and public key do not match.")
+
     @classmethod
     def from_key_file(cls, file: str, passphrase: str) -> "RsaKeyPair":
         """Load the keypair from a file.
@@ -319,6 +326,7 @@ class RsaKeyPair(AbstractKeyPair):
             key_pair._key_pair = RSA.import_key(
                 bytes.fromhex(key_data["private_key"]), passphrase=passphrase
             )
+            key_pair._check_key_data(key_data)
 
         return key_pair
 
@@ -381,6 +389,7 @@ class RsaKeyPair(AbstractKeyPair):
         key_pair._key_pair = RSA.import_key(
             bytes.fromhex(key_data["private_key"]), passphrase=passphrase
         )
+        key_pair._check_key_data(key_data)
 
         return key_pair
 
-- 
2.43.0


From bb86affc38fa697f8422a028ff5aba8940ed966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 29/38] fix: contains could raise KeyError or look at two roots
 while another thread changes the trie

---
 src/pymt/mpt.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 4acb801..50d08e4 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -206,14 +206,16 @@ class MPT:
         This method does not RLP-encode the key.
         If you use encoded keys, you should encode them yourself.
         """
-        if not self._root:
+        # Read the root only once, another thread may be changing the trie
+        root = self._root
+        if not root or root == Node.EMPTY_HASH:
             return False
 
         if self._secure and hash_key:
             key = keccak_hash(key)
 
         path = NibblePath(key)
-        node = self._contains(self._root, path)
+        node = self._contains(root, path)
 
         # If the node is a branch check if it has a value
         # (the search may also have stopped here because a branch slot is empty)
@@ -663,9 +665,6 @@ class MPT:
         The main contains method will check if this node has a value, and
         if this value is the one we're looking for.
         """
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            return False
-
         node = self._get_node(node_ref)
 
         # If path is empty, our travel is over. Main `get` method
-- 
2.43.0


From 88537606a1ad2dec51ee6ed657c9e93d12645a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 30/38] fix: Merkle trees with different roots could compare
 equal

---
 src/pymt/merkletools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 2436a3f..a92ef13 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -62,13 +62,18 @@ class MerkleTools(object):
 
     def __hash__(self) -> int:
         """Get the hash of the Merkle tree."""
-        return int(self.get_merkle_root(), 16)
+        return int.from_bytes(self._root_digest(), "big")
 
     def __eq__(self, other: "MerkleTools") -> bool:
         """Check if two Merkle trees are equal."""
         if not isinstance(other, MerkleTools):
             return False
-        return self.__hash__() == other.__hash__()
+        return self._root_digest() == other._root_digest()
+
+    def _root_digest(self) -> bytes:
+        """Get the Merkle root as bytes."""
+        self.get_merkle_root()  # Raises if there is no root
+        return bytes(self.levels[0][0])
 
     def __repr__(self) -> str:
         """Get the string representation of the Merkle tree."""
-- 
2.43.0


From 5528b6fdcfbdee0321ab440a2bca0d19d3ee493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 31/38] fix: updates refused for the type of their value left
 nodes behind in the storage

---
 src/pymt/mpt.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 50d08e4..545b06c 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -190,7 +190,18 @@ class MPT:
             Key or RLP-encoded key.
         encoded_value: bytes
             Value or RLP-encoded value.
+
+        Raises
+        ------
+        TypeError
+            TypeError is raised if the value is not bytes.
         """
+        # Refuse the value before any node is stored
+        if not isinstance(encoded_value, (bytes, bytearray)):
+            raise TypeError(
+                "The value must be type bytes, not {}".format(type(encoded_value))
+            )
+
         if self._secure:
             encoded_key = keccak_hash(encoded_key)
 
-- 
2.43.0


From 883c5e11d04f9f1b6e2e2387e8e4a21f32daa69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 32/38] fix: a delete that failed in the trie lost the data of
 the key

---
 src/pymt/empt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 08053ff..a48e3a0 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -320,8 +320,11 @@ class EMPT(MutableMapping):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
         if not self._trie.contains(key):
             raise KeyNotFoundError("The key is not in the trie")
-        del self._data_storage[key]
+        if key not in self._data_storage:
+            raise KeyError(key)
+        # The data goes last, it is still there if the trie cannot be changed
         self._trie.delete(key)
+        del self._data_storage[key]
 
     def contains(self, key: bytes) -> bool:
         """
-- 
2.43.0


From 08ea8986d85f90355c71231ed212f13f6be8f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 33/38] fix: build_trie destroyed the trie when a value could
 not be encoded

---
 src/pymt/empt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index a48e3a0..9feee4f 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -240,15 +240,20 @@ class EMPT(MutableMapping):
             This method is very expensive and should be used with caution. As the
             database grows, the time it takes to build the trie will increase.
         """
+        # Make the references first, the trie stays as it is if this fails
+        references = []
+        for key in self._data_storage.keys():
+            ref = _make_reference(key, self._data_storage[key])
+            references.append((key, ref.encode()))
+
         # Delete all the nodes in the trie
         for key in list(self._trie._storage.keys()):
             del self._trie._storage[key]
         self._trie = MPT(self._trie._storage, secure=self._trie.secure)
 
         # Build the new trie
-        for key in self._data_storage.keys():
-            ref = _make_reference(key, self._data_storage[key])
-            self._trie.update(key, ref.encode())
+        for key, reference in references:
+            self._trie.update(key, reference)
 
     def get(self, key: bytes) -> bytes:
         """
-- 
2.43.0


From c2e1d5838cea7e8f095d3ec85c0edd49093b2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 34/38] fix: restore the line endings of mpt.py changed by an
 earlier fix

---
 src/pymt/mpt.py | 2990 +++++++++++++++++++++++------------------------
 1 file changed, 1495 insertions(+), 1495 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 545b06c..523c9b5 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -1,1495 +1,1495 @@
-from enum import Enum
-from .utils.hash import keccak_hash
-from .utils.nibble_path import NibblePath
-from .proof import Proof
-from .utils.node import (
-    Node,
-    Leaf,
-    Extension,
-    Branch,
-    _prepare_reference_for_encoding,
-    _prepare_reference_for_usage,
-)
-from .utils.exceptions import (
-    KeyNotFoundError,
-    ExtensionPathError,
-    LeafPathError,
-    BranchPathError,
-    PoeError,
-    PoiError,
-    InvalidNodeError,
-)
-from typing import Tuple, List, Union, Optional
-import rlp
-
-
-def _holds_value(node: Node) -> bool:
-    """Return True if a path that ends at this node has its value in this node."""
-    if isinstance(node, Leaf):
-        return len(node.path) == 0
-    return isinstance(node, Branch) and len(node.data) != 0
-
-
-class MPT:
-    """
-    This class represents a trie.
-
-    MerklePatriciaTrie works like a wrapper over provided storage.
-    Storage must implement dict-like interface. Any data structure
-    that implements `__getitem__` and `__setitem__` should be OK.
-
-    IMPORTANT: MPT's use the terms path, node_ref, node value a lot
-    and it can cause some confusion.
-    -   path is a sequence of nibbles. The path is used for database lookup
-        and consists of the steps down the tree that are needed to reach the value.
-    -   node_ref is a reference to a node in the storage. The node ref is a
-        hash of the node itself.
-    -   node is the object that represents a node in the trie. It can be a leaf,
-        an extension or a branch. How many values are stored in a node depends on
-        the node type.
-
-    Methods
-    -------
-    get(encoded_key)
-        This method gets a value associtated with provided key.
-    update(encoded_key, encoded_value)
-        This method updates a provided key-value pair into the trie.
-    delete(encoded_key)
-        This method removes a value associtated with provided key.
-    """
-
-    def __init__(
-        self, storage: dict, root: Union[bytes, None] = None, secure: bool = False
-    ) -> ...:
-        """
-        Create a new instance of MPT.
-
-        Parameters
-        ----------
-        storage: dict-like
-            Data structure to store all the data of MPT.
-        root: bytes
-            (Optional) Root node (not root hash!) of the trie.
-            If not provided, tree will be considered empty.
-        secure: bool
-            (Optional) In secure mode all the keys are hashed using keccak256 internally.
-        """
-        self._storage = storage
-        if root == ... or root is None:
-            self._root = Node.EMPTY_HASH
-        else:
-            self._root = root
-        self._secure = secure
-
-    # PROPERTIES
-    @property
-    def secure(self) -> bool:
-        """Return True if trie is in secure mode."""
-        return self._secure
-
-    # DUNDER METHODS
-    def __len__(self) -> int:
-        """Return the number of nodes in the trie."""
-        return len(self._storage.keys())
-
-    def __contains__(self, encoded_key: bytes) -> bool:
-        return self.contains(encoded_key)
-
-    def __getitem__(self, encoded_key: bytes) -> bytes:
-        return self.get(encoded_key)
-
-    def __setitem__(self, encoded_key: bytes, encoded_value: bytes) -> None:
-        self.update(encoded_key, encoded_value)
-
-    def __delitem__(self, encoded_key: bytes) -> None:
-        self.delete(encoded_key)
-
-    def __hash__(self) -> int:
-        return int(keccak_hash(self.root_hash(), hexdigest=True), 16)
-
-    def __eq__(self, other: "MPT") -> bool:
-        if not isinstance(other, MPT):
-            return False
-        return self.__hash__() == other.__hash__()
-
-    # TREE FUNCTIONS
-    def root(self) -> Union[bytes, None]:
-        """
-        Return a root node of the trie.
-
-        Returns
-        -------
-        Node
-            Root node of the trie. Type is `bytes` if trie isn't empty and `None` otherwise.
-        """
-        return self._root
-
-    def root_hash(self) -> bytes:
-        """
-        Returns a hash of the trie's root node.
-
-        For empty trie it's the hash of the RLP-encoded empty string.
-
-        Returns
-        -------
-        bytes
-            Hash of the trie's root node.
-        """
-        if not self._root:
-            return Node.EMPTY_HASH
-        elif len(self._root) == 32:  # Root is already a hash
-            return self._root
-        else:
-            return keccak_hash(self._root)
-
-    def get(self, encoded_key: bytes) -> bytes:
-        """
-        This method gets a value associtated with provided key.
-
-        This method does not RLP-encode or hash the key.
-        If you use encoded keys, you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-
-        Returns
-        -------
-        bytes
-            Stored value associated with provided key.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no value assotiated with provided key.
-        """
-        if not self._root:
-            raise ValueError("Trie is empty")
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        path = NibblePath(encoded_key)
-        result_node = self._get(self._root, path)
-        return result_node.data
-
-    def update(self, encoded_key: bytes, encoded_value: bytes) -> ...:
-        """
-        This method updates a provided key-value pair into the trie.
-
-        If there is no such a key in the trie, a new entry will be created.
-        Otherwise value associtaed with key is updated.
-
-        This method does not RLP-encode the key and value.
-        If you use encoded keys and values, you should encode them yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-        encoded_value: bytes
-            Value or RLP-encoded value.
-
-        Raises
-        ------
-        TypeError
-            TypeError is raised if the value is not bytes.
-        """
-        # Refuse the value before any node is stored
-        if not isinstance(encoded_value, (bytes, bytearray)):
-            raise TypeError(
-                "The value must be type bytes, not {}".format(type(encoded_value))
-            )
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        path = NibblePath(encoded_key)
-        result = self._update(self._root, path, encoded_value)
-        self._root = result
-
-    # Find out if the key is in the trie
-    def contains(self, key: bytes, hash_key: bool = True) -> bool:
-        """
-        This method checks if the key is in the trie.
-
-        This method does not RLP-encode the key.
-        If you use encoded keys, you should encode them yourself.
-        """
-        # Read the root only once, another thread may be changing the trie
-        root = self._root
-        if not root or root == Node.EMPTY_HASH:
-            return False
-
-        if self._secure and hash_key:
-            key = keccak_hash(key)
-
-        path = NibblePath(key)
-        node = self._contains(root, path)
-
-        # If the node is a branch check if it has a value
-        # (the search may also have stopped here because a branch slot is empty)
-        if isinstance(node, Branch):
-            if len(path) == 0 and node.data != None and node.data != b"":
-                return True
-            else:
-                return False
-
-        # If the node is an extension the key is not in the trie
-        # Extension nodes dont hold data
-        if isinstance(node, Extension):
-            return False
-
-        # If the node is a leaf the key is in the trie
-        if isinstance(node, Leaf):
-            if node.path == path:
-                return True
-            else:
-                return False
-        else:
-            # Path doesnt match so key is not in the trie
-            return False
-
-        raise Exception("This should never happen")
-
-    def delete(self, encoded_key: bytes) -> ...:
-        """
-        This method removes a value associtated with provided key.
-
-        This method does not RLP-encode the key.
-        If you use encoded keys, you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            The key or RLP-encoded key.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no value assotiated with provided key.
-        """
-
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Trie is empty")
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        path = NibblePath(encoded_key)
-        action, info = self._delete(self._root, path)
-
-        if action == MPT._DeleteAction.DELETED:
-            # Trie is empty
-            self._root = None
-        elif action == MPT._DeleteAction.UPDATED:
-            new_root = info
-            self._root = new_root
-        elif action == MPT._DeleteAction.USELESS_BRANCH:
-            _, new_root = info
-            self._root = new_root
-
-    # PROOF FUNCTIONS
-    def get_proof_of_inclusion(self, encoded_key: bytes) -> Proof:
-        """
-        This method returns a proof of inclusion for a key.
-
-        Proof is a list of nodes that are necessary to reconstruct the trie.
-
-        .. attention::
-            This method does not RLP-encode the key.
-            If you use encoded keys, you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-
-        Returns
-        -------
-        proof : Proof
-            The proof object for the proof of inclusion
-
-        Raises
-        ------
-        ValueError
-            ValueError is raised if the trie is empty.
-        """
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Cannot generate a proof for empty trie")
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        proof_list = self._get_proof_of_inclusion(
-            self._root, NibblePath(encoded_key), []
-        )
-        return Proof(
-            target_key=encoded_key,
-            root_hash=self.root(),
-            proof=tuple(proof_list),
-            proof_type=b"MPT-POI",
-        )
-
-    def verify_proof_of_inclusion(self, proof: Proof) -> bool:
-        """
-        This method verifies a proof object containing a proof of inclusion.
-
-        Parameters
-        ----------
-        proof : Proof
-            The proof object to verify.
-
-        Returns
-        -------
-        bool
-            True if the proof is valid, False otherwise.
-
-        Raises
-        ------
-        ValueError
-            ValueError is raised if the trie is empty.
-        TypeError
-            TypeError is raised if the proof is not a proof of inclusion.
-        """
-        if proof.type != b"MPT-POI":
-            raise TypeError("The given proof is not a proof of inclusion.")
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Cannot verify a proof for empty trie.")
-
-        # Compare the root hashes
-        if self.root_hash() != keccak_hash(proof.proof[0]):
-            return False
-
-        # Recreate a partial trie from the proof and walk down from root to taget
-        # node.
-        proof_storage = {}
-        for encoded_node in proof.proof:
-            try:
-                node = Node.decode(encoded_node)
-            except rlp.DecodingError:
-                return False
-            # An altered node can decode to the same node as the genuine one
-            if node.encode() != encoded_node:
-                return False
-            proof_storage[Node.into_reference(node)] = encoded_node
-        # The root is known by its hash, however small the root node is
-        proof_storage[self.root_hash()] = proof.proof[0]
-        valid = self._verify_proof_of_inclusion(
-            self.root_hash(), NibblePath(proof.target_key), proof_storage
-        )
-        # Check if the current trie hash is the sam as the proof root. The proof
-        # holds the root itself, which for a small trie is the encoded root node.
-        proof_root_hash = MPT({}, proof.trie_root).root_hash()
-        if valid and self.root_hash() == proof_root_hash:
-            return True
-        else:
-            return False
-
-    def get_proof_of_exclusion(self, encoded_key: bytes) -> Proof:
-        """
-        This method returns a proof of exclusion for a key.
-
-        Proof is a list of nodes that are necessary to reconstruct the trie.
-        This method does not RLP-encode the key. If you use encoded keys,
-        you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-
-        Returns
-        -------
-        proof : Proof
-            The Proof object for the proof of exclusion.
-
-        Raises
-        ------
-        ValueError
-            ValueError is raised if the trie is empty.
-        PoeError
-            PoeError is raised if the key is in the trie.
-        """
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Cannot generate a proof for empty trie")
-
-        # Check if the key is in the trie
-        if self.contains(encoded_key):
-            raise PoeError("Cannot generate a proof for a key that is in the trie")
-
-        if self._secure:
-            encoded_key = keccak_hash(encoded_key)
-
-        path = NibblePath(encoded_key)
-        node, proof_list = self._get_proof_of_exclusion(self._root, path, [])
-
-        # Add a leaf node with the key to the proof
-        proof_list.append(Leaf(path, b"null").encode())
-
-        # If the node is a branch check if i thas a value
-        # Can be None or b'' (b'' is used when trie is in secure mode)
-        if isinstance(node, Branch):
-            if len(path) == 0 and node.data != None and node.data != b"":
-                raise PoeError("This should never happen")
-
-        # If the node is a leaf the key is in the trie
-        if isinstance(node, Leaf):
-            if node.path == path:
-                raise PoeError("This should never happen")
-
-        return Proof(
-            target_key=encoded_key,
-            root_hash=self.root_hash(),
-            proof=tuple(proof_list),
-            proof_type=b"MPT-POE",
-        )
-
-    def verify_proof_of_exclusion(self, proof: Proof) -> bool:
-        """
-        This method verifies a proof of exclusion for a key.
-
-        This method does not RLP-encode the key. If you use encoded keys,
-        you should encode it yourself.
-
-        Parameters
-        ----------
-        encoded_key: bytes
-            Key or RLP-encoded key.
-        proof: list of bytes
-            Proof of exclusion hash for a key.
-
-        Returns
-        -------
-        bool
-            True if the proof is valid, False otherwise.
-
-        Raises
-        ------
-        ValueError
-            ValueError is raised if the trie is empty.
-        TypeError
-            TypeError is raised if the proof is not a proof of exclusion.
-        """
-        if proof.type != b"MPT-POE":
-            raise TypeError("The given proof is not a proof of exclusion.")
-
-        if self._root is None or self._root == Node.EMPTY_HASH:
-            raise ValueError("Cannot verify a proof for empty trie")
-
-        # Compare the root hashes
-        if self.root_hash() != keccak_hash(proof.proof[0]):
-            return False
-
-        if Node.decode(proof.proof[-1]).data != b"null":
-            return False
-
-        # Recreate a partial trie from the proof and walk down from root to taget
-        # node.
-        proof_storage = {}
-        for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.
-            node = Node.decode(encoded_node)
-            # An altered node can decode to the same node as the genuine one
-            if node.encode() != encoded_node:
-                return False
-            proof_storage[Node.into_reference(node)] = encoded_node
-
-        path = NibblePath(proof.target_key)
-        # The root is known by its hash, however small the root node is
-        proof_storage.pop(Node.into_reference(Node.decode(proof.proof[0])), None)
-        proof_storage[self.root_hash()] = proof.proof[0]
-        node, keys_left = self._verify_proof_of_exclusion(
-            self.root_hash(), path, proof_storage
-        )
-
-        # The proof has to reach the node that shows that the key is missing
-        if node is None:
-            return False
-
-        # There should be no keys left in the proof
-        if len(keys_left.keys()) != 0:
-            return False
-
-        # Check if the result node is valid
-        # If the node is a branch check if it has a value
-        if isinstance(node, Branch):
-            if len(path) == 0 and len(node.data) != 0:
-                return False
-
-        # If the node is a leaf with the rest of the path the key is in the trie
-        if isinstance(node, Leaf):
-            if node.path == path:
-                return False
-
-        # Proof passed if it was made for the current root
-        return self.root_hash() == MPT({}, proof.trie_root).root_hash()
-
-    # CODEC
-    def encode(self) -> bytes:
-        """Encode the trie into rlp."""
-        storage_list = [
-            _prepare_reference_for_encoding(node) for node in self._storage.values()
-        ]
-        root = self.root_hash() if self.root() is None else self.root()
-        content = [root, storage_list, self._secure]
-        return rlp.encode(content)
-
-    @staticmethod
-    def decode(encoded_data: bytes) -> "MPT":
-        """
-        Decode the trie from rlp.
-
-        Parameters
-        ----------
-        encoded_data : bytes
-            The rlp encoded trie.
-
-        Returns
-        -------
-        MMPT
-            The decoded trie.
-        """
-        sedes = rlp.sedes.List(
-            [
-                rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
-                rlp.sedes.boolean,
-            ]
-        )
-        root, storage_list, secure = rlp.decode(encoded_data, sedes=sedes)
-        storage = {}
-        for encoded_node in storage_list:
-            # Nodes are stored as the RPL encoded version of the full node
-            storage[keccak_hash(encoded_node)] = _prepare_reference_for_usage(
-                encoded_node
-            )
-
-        return MPT(storage=storage, root=root, secure=secure)
-
-    # SUPPORTING METHODS
-    def _get_node(self, node_ref: bytes) -> Node:
-        """This method gets a node from storage."""
-        raw_node = None
-
-        # Okey maybe it is alright like this because an RLP encoded node will
-        # still get decoded
-        # If the node_ref is already a node, just return it
-        if (
-            isinstance(node_ref, Extension)
-            or isinstance(node_ref, Leaf)
-            or isinstance(node_ref, Branch)
-        ):
-            return node_ref
-
-        # Otherwise try to get it from storage or decode it from RLP
-        if len(node_ref) == 32:
-            raw_node = self._storage[node_ref]
-            if isinstance(raw_node, Node):
-                return raw_node
-        else:
-            raw_node = node_ref
-
-        decoded_node = Node.decode(raw_node)
-        if not (
-            isinstance(decoded_node, Extension)
-            or isinstance(decoded_node, Leaf)
-            or isinstance(decoded_node, Branch)
-        ):
-            raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
-        return decoded_node
-
-    def _get(self, node_ref: bytes, path: NibblePath) -> bytes:
-        """
-        Get support method.
-
-        Returns a value associated with provided key.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-
-        Returns
-        -------
-        bytes
-            Value associated with provided key.
-
-        Raises
-        ------
-        KeyNotFoundError
-            KeyError is raised if there is no value assotiated with provided key.
-        ExtensionPathError, BranchPathError, LeafPathError, InvalidNodeError, ExtentionPathError
-            Raised if the path is not valid.
-        """
-        node = self._get_node(node_ref)
-
-        # If path is empty, our travel is over. The key is only in the trie
-        # if this node holds the value of exactly this path.
-        if len(path) == 0:
-            if not _holds_value(node):
-                raise KeyNotFoundError("There is no value stored at this path.")
-            return node
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.
-            if node.path == path:
-                return node
-            else:
-                raise KeyNotFoundError(
-                    "The leaf key and search key do not match."
-                    " Leaf key: {}, search key: {}".format(node.path, path)
-                )
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                return self._get(node.next_ref, rest_path)
-            else:
-                raise ExtensionPathError(
-                    "Something wrong with the path in the extension."
-                    " Extension path: {}, search path: {}".format(node.path, path)
-                )
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                return self._get(branch, path.consume(1))
-            else:
-                raise BranchPathError(
-                    "Branch slot is empty."
-                    " Branch: {}, search path: {}".format(node.branches, path)
-                )
-
-        raise InvalidNodeError("Invalid node type {}".format(type(node)))
-
-    def _contains(self, node_ref: bytes, path: NibblePath) -> bool:
-        """
-        contains support method.
-
-        Only returns the node as close to the end of the path as possible.
-        The main contains method will check if this node has a value, and
-        if this value is the one we're looking for.
-        """
-        node = self._get_node(node_ref)
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            return node
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.(we hope its the wrong leaf but
-            # that is up to the main method).
-            return node
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                return self._contains(node.next_ref, rest_path)
-            else:
-                return node
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                return self._contains(branch, path.consume(1))
-            else:
-                # This is the furthest node we can go.
-                return node
-
-        raise InvalidNodeError("Invalid node type {}".format(type(node)))
-
-    def _get_proof_of_inclusion(
-        self, node_ref: bytes, path: NibblePath, proof: dict
-    ) -> dict:
-        """
-        Get proof of inclusion support method.
-
-        Used to iterate over the trie and get a proof of inclusion for a node ref.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-        proof: dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Returns
-        -------
-        dict
-            Dictionary with nodes in the proof up untill now.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no node assotiated with provided key.
-        LeafPathError, InvalidNodeError, ExtentionPathError, BranchPathError
-            Raised if the path is not valid.
-        """
-        # Get the node from the reference
-        node = self._get_node(node_ref)
-
-        # print(type(node))
-
-        if len(path) == 0:
-            # If path is empty, we've found the node.
-            # The node doesnt have to be a leaf.
-            if not _holds_value(node):
-                raise KeyNotFoundError("There is no value stored at this path.")
-            proof.append(node.encode())
-            return proof
-
-        if isinstance(node, Leaf):
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.
-            if node.path == path:
-                proof.append(node.encode())
-                return proof
-            else:
-                raise LeafPathError(
-                    "The leaf key and search key do not match"
-                    " Leaf key: {}, search key: {}".format(node.path, path)
-                )
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                proof.append(node.encode())
-                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)
-            else:
-                raise ExtensionPathError(
-                    "Something wrong with the path in the extension"
-                    " Extension path: {}, search path: {}".format(node.path, path)
-                )
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                proof.append(node.encode())
-                return self._get_proof_of_inclusion(branch, path.consume(1), proof)
-            else:
-                raise BranchPathError(
-                    "Branch slot is empty."
-                    " Branch: {}, search path: {}".format(node.branches, path)
-                )
-
-        raise InvalidNodeError("Unknown node type {}".format(node))
-
-    def _verify_proof_of_inclusion(
-        self, node_ref: bytes, path: NibblePath, proof_storage: dict
-    ) -> bool:
-        """
-        Verify proof of inclusion support method.
-
-        Used to verify a proof of inclusion for a node ref.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-        proof: dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Returns
-        -------
-        bool
-            True if the proof is valid, False otherwise.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no node assotiated with provided key.
-        ExtensionPathError, InvalidNodeError, LeafPathError, BranchPathError, InvalidNodeError
-            Raised if the path is not valid.
-        """
-        # Get the right node from the proof storage
-        if not (
-            isinstance(node_ref, Leaf)
-            or isinstance(node_ref, Extension)
-            or isinstance(node_ref, Branch)
-        ):
-            # Otherwise try to get it from storage or decode it from RLP
-            if len(node_ref) == 32:
-                try:
-                    raw_node = proof_storage[node_ref]
-                except KeyError:
-                    return False
-            else:
-                raw_node = node_ref
-            node = Node.decode(raw_node)
-        else:
-            node = node_ref
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            # check extension and node, leaf already handeled
-            if isinstance(node, Extension):
-                return False
-            # Check if the branch has data or the path of the leaf is used up
-            return _holds_value(node)
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.
-            if node.path == path:
-                return True
-            else:
-                return False
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                return self._verify_proof_of_inclusion(
-                    node.next_ref, rest_path, proof_storage
-                )
-            else:
-                raise ExtensionPathError(
-                    "Something wrong with the path in the extension."
-                    " Extension path: {}, search path: {}".format(node.path, path)
-                )
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                return self._verify_proof_of_inclusion(
-                    branch, path.consume(1), proof_storage
-                )
-            else:
-                raise BranchPathError(
-                    "Branch slot is empty."
-                    " Branch: {}, search path: {}".format(node.branches, path)
-                )
-
-        raise InvalidNodeError("Unknown node type {}".format(node))
-
-    def _get_proof_of_exclusion(
-        self, node_ref: bytes, path: NibblePath, proof: dict
-    ) -> dict:
-        """
-        Get proof of exclusion support method.
-
-        Used to iterate over the trie and get a proof of exclusion for a node ref.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-        proof: dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Returns
-        -------
-        dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no node assotiated with provided key.
-        """
-        node = self._get_node(node_ref)
-
-        # print(type(node))
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            proof.append(node.encode())
-            return node, proof
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.(we hope its the wrong leaf but
-            # that is up to the main method).
-            proof.append(node.encode())
-            return node, proof
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                proof.append(node.encode())
-                return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
-            else:
-                # The diverging extension is what shows that the key is missing.
-                proof.append(node.encode())
-                return node, proof
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            proof.append(node.encode())
-            if len(branch) > 0:
-                return self._get_proof_of_exclusion(branch, path.consume(1), proof)
-            else:
-                # This is the furthest node we can go.
-                return node, proof
-
-        raise InvalidNodeError("Invalid node type {}".format(type(node)))
-
-    def _verify_proof_of_exclusion(
-        self,
-        node_ref: Union[bytes, Leaf, Branch, Extension],
-        path: NibblePath,
-        proof_storage: dict,
-    ) -> Tuple[bool, dict]:
-        """
-        Verify proof of exclusion support method.
-
-        Used to verify a proof of exclusion for a node ref.
-
-        Parameters
-        ----------
-        node_ref: bytes, Leaf, Branch, Extension
-            Reference to a node or the node itself.
-        path: NibblePath
-            Path to a value.
-        proof: dict
-            Dictionary with nodes. (empty in the beginning)
-
-        Returns
-        -------
-        bool, node_ref
-            True if this the last node in the proof, the next node ref otherwise.
-        proof_storage: dict
-            Dictionary with nodes.
-
-        Raises
-        ------
-        PoeError
-            PoeError when there is something wrong with the proof.
-        InvalidNodeError
-            InvalidNodeError when there is an invalid node in the proof.
-        """
-        # Get the right node from the proof storage
-        if not (
-            isinstance(node_ref, Leaf)
-            or isinstance(node_ref, Extension)
-            or isinstance(node_ref, Branch)
-        ):
-            # Otherwise try to get it from storage or decode it from RLP
-            if len(node_ref) == 32:
-                try:
-                    raw_node = proof_storage[node_ref]
-                except KeyError:
-                    # The proof stops before it shows that the key is missing
-                    return None, proof_storage
-            else:
-                raw_node = node_ref
-            node = Node.decode(raw_node)
-        else:
-            node = node_ref
-
-        # Remove the used reference and node from the dictionary
-        if proof_storage.pop(node_ref, None) == None:
-            raise PoeError(
-                "The proof storage returned a node with value None,"
-                " this should not be possible."
-            )
-
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            return node, proof_storage
-
-        if type(node) is Leaf:
-            # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.(we hope its the wrong leaf but
-            # that is up to the main method).
-            return node, proof_storage
-
-        elif type(node) is Extension:
-            # If we've found an extension, we need to go deeper.
-            if path.starts_with(node.path):
-                rest_path = path.consume(len(node.path))
-                return self._verify_proof_of_exclusion(
-                    node.next_ref, rest_path, proof_storage
-                )
-            else:
-                return node, proof_storage
-
-        elif type(node) is Branch:
-            # If we've found a branch node, go to the appropriate branch.
-            branch = node.branches[path.at(0)]
-            if len(branch) > 0:
-                return self._verify_proof_of_exclusion(
-                    branch, path.consume(1), proof_storage
-                )
-            else:
-                # This is the furthest node we can go.
-                return node, proof_storage
-
-        raise InvalidNodeError("Invalid node type {}".format(type(node)))
-
-    def _update(self, node_ref: bytes, path: NibblePath, value: bytes) -> bytes:
-        """
-        Update support method.
-
-        Updates a value associated with provided key.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to a node.
-        path: NibblePath
-            Path to a value.
-        value: bytes
-            Value to be stored.
-
-        Returns
-        -------
-        bytes
-            New root of the trie.
-
-        Raises
-        ------
-        KeyError
-            KeyError is raised if there is no value assotiated with provided key.
-        """
-        if not node_ref or node_ref == Node.EMPTY_HASH:
-            return self._store_node(Leaf(path, value))
-
-        node = self._get_node(node_ref)
-
-        if type(node) == Leaf:
-            # If we're updating the leaf there are 2 possible ways:
-            # 1. Path is equals to the rest of the key. Then we should
-            #    just update value of this leaf.
-            # 2. Path differs. Then we should split this node into several nodes.
-
-            if node.path == path:
-                # Path is the same. Just change the value.
-                node.data = value
-                return self._store_node(node)
-
-            # If we are here, we have to split the node.
-
-            # Find the common part of the key and leaf's path.
-            common_prefix = path.common_prefix(node.path)
-
-            # Cut off the common part.
-            path.consume(len(common_prefix))
-            node.path.consume(len(common_prefix))
-
-            # Create branch node to split paths.
-            branch_reference = self._create_branch_node(
-                path, value, node.path, node.data
-            )
-
-            # If common part isn't empty, we have to create an extension node before branch node.
-            # Otherwise, we need just branch node.
-            if len(common_prefix) != 0:
-                return self._store_node(Extension(common_prefix, branch_reference))
-            else:
-                return branch_reference
-
-        elif type(node) == Extension:
-            # If we're updating an extenstion there are 2 possible ways:
-            # 1. Key starts with the extension node's path.
-            #    Then we just go ahead and all the work will be done there.
-            # 2. Key doesn't start with extension node's path. Then we have to split extension node.
-
-            if path.starts_with(node.path):
-                # Just go ahead.
-                new_reference = self._update(
-                    node.next_ref, path.consume(len(node.path)), value
-                )
-                return self._store_node(Extension(node.path, new_reference))
-
-            # Split extension node.
-
-            # Find the common part of the key and extension's path.
-            common_prefix = path.common_prefix(node.path)
-
-            # Cut off the common part.
-            path.consume(len(common_prefix))
-            node.path.consume(len(common_prefix))
-
-            # Create an empty branch node. It may have or have not the value depending on the length
-            # of the rest of the key.
-            branches = [b""] * 16
-            branch_value = value if len(path) == 0 else b""
-
-            # If needed, create leaf branch for the value we're inserting.
-            self._create_branch_leaf(path, value, branches)
-            # If needed, create an extension node for the rest of the extension's path.
-            self._create_branch_extension(node.path, node.next_ref, branches)
-
-            branch_reference = self._store_node(Branch(branches, branch_value))
-
-            # If common part isn't empty, we have to create an extension node before branch node.
-            # Otherwise, we need just branch node.
-            if len(common_prefix) != 0:
-                return self._store_node(Extension(common_prefix, branch_reference))
-            else:
-                return branch_reference
-
-        elif type(node) == Branch:
-            # For branch node things are easy.
-            # 1. If key is empty, just store value in this node.
-            # 2. If key isn't empty, just call `_update` with appropiate branch reference.
-
-            if len(path) == 0:
-                return self._store_node(Branch(node.branches, value))
-
-            idx = path.at(0)
-            new_reference = self._update(node.branches[idx], path.consume(1), value)
-
-            node.branches[idx] = new_reference
-
-            return self._store_node(node)
-
-    def _create_branch_node(
-        self, path_a: NibblePath, value_a: bytes, path_b: NibblePath, value_b: bytes
-    ) -> bytes:
-        """
-        Create a branch node with up to two leaves and maybe value.
-
-        Parameters
-        ----------
-        path_a: NibblePath
-            Path to a leaf.
-        value_a: bytes
-            Value to be stored in a leaf.
-        path_b: NibblePath
-            Path to a leaf.
-        value_b: bytes
-            Value to be stored in a leaf.
-
-        Returns
-        -------
-        bytes
-            Reference to created node.
-        """
-
-        assert len(path_a) != 0 or len(path_b) != 0
-
-        branches = [b""] * 16
-
-        branch_value = b""
-        if len(path_a) == 0:
-            branch_value = value_a
-        elif len(path_b) == 0:
-            branch_value = value_b
-
-        self._create_branch_leaf(path_a, value_a, branches)
-        self._create_branch_leaf(path_b, value_b, branches)
-
-        return self._store_node(Branch(branches, branch_value))
-
-    def _create_branch_leaf(
-        self, path: NibblePath, value: bytes, branches: List[bytes]
-    ) -> ...:
-        """
-        If path isn't empty, creates leaf node and stores reference in appropriate branch.
-
-        Parameters
-        ----------
-        path: NibblePath
-            Path to a leaf.
-        value: bytes
-            Value to be stored in a leaf.
-        branches: list of bytes
-            List of references to nodes.
-
-        Returns
-        -------
-        None
-        """
-        if len(path) > 0:
-            idx = path.at(0)
-
-            leaf_ref = self._store_node(Leaf(path.consume(1), value))
-            branches[idx] = leaf_ref
-
-    def _create_branch_extension(
-        self, path: NibblePath, next_ref: bytes, branches: List[bytes]
-    ) -> ...:
-        """
-        If needed, create an extension node and stores reference in appropriate branch.
-        Otherwise just stores provided reference.
-
-        Parameters
-        ----------
-        path: NibblePath
-            Path to an extension node.
-        next_ref: bytes
-            Reference to a node.
-        branches: list of bytes
-            List of references to nodes.
-
-        Returns
-        -------
-        None
-        """
-        assert (
-            len(path) >= 1
-        ), "Path for extension node should contain at least one nibble"
-
-        if len(path) == 1:
-            branches[path.at(0)] = next_ref
-        else:
-            idx = path.at(0)
-            reference = self._store_node(Extension(path.consume(1), next_ref))
-            branches[idx] = reference
-
-    def _store_node(self, node: Node) -> bytes:
-        """
-        Build the reference from the node and if needed saves node in the storage.
-
-        Parameters
-        ----------
-        node: Node
-            Node to be stored.
-
-        Returns
-        -------
-        bytes
-            Reference to the node.
-        """
-        reference = Node.into_reference(node)
-        if len(reference) == 32:
-            self._storage[reference] = node.encode()
-        return reference
-
-    class _DeleteAction(Enum):
-        """
-        Enum that shows which action was performed on the previous step of the deletion.
-        """
-
-        # Node was deleted. Returned value should be (_DeleteAction, None).
-        DELETED = (1,)
-        # Node was updated. Returned value should be (_DeleteAction, new_node_reference)
-        UPDATED = (2,)
-        # Branch became useless. Returned value should be
-        # (_DeleteAction, (path_to_new_reference, new_node_reference))
-        USELESS_BRANCH = 3
-
-    def _delete(
-        self, node_ref: bytes, path: NibblePath
-    ) -> Tuple[_DeleteAction, Optional[bytes]]:
-        """
-        Delete method helper.
-
-        Parameters
-        ----------
-        node_ref: bytes
-            Reference to the node.
-        path: NibblePath
-            Path to the node.
-
-        Returns
-        -------
-        _DeleteAction
-            Action that was performed on the previous step of the deletion.
-
-        """
-
-        node = self._get_node(node_ref)
-
-        if type(node) == Leaf:
-            # If it's leaf node, then it's either node we need or incorrect key provided.
-            if path == node.path:
-                return MPT._DeleteAction.DELETED, None
-            else:
-                raise LeafPathError("Incorrect or non existing path provided")
-
-        elif type(node) == Extension:
-            # Extension node can't be removed directly, it passes delete request to the next node.
-            # After that several options are possible:
-            # 1. Next node was deleted. Then this node should be deleted too.
-            # 2. Next node was updated. Then we should update stored reference.
-            # 3. Next node was useless branch. Then we have to update our node depending on the next node type.
-
-            if not path.starts_with(node.path):
-                raise ExtensionPathError("Incorrect path provided")
-
-            action, info = self._delete(node.next_ref, path.consume(len(node.path)))
-
-            if action == MPT._DeleteAction.DELETED:
-                # Next node was deleted. This node should be deleted also.
-                return action, None
-            elif action == MPT._DeleteAction.UPDATED:
-                # Next node was updated. Update this node too.
-                child_ref = info
-                new_ref = self._store_node(Extension(node.path, child_ref))
-                return action, new_ref
-            elif action == MPT._DeleteAction.USELESS_BRANCH:
-                # Next node was useless branch.
-                stored_path, stored_ref = info
-
-                child = self._get_node(stored_ref)
-
-                new_node = None
-                if type(child) == Leaf:
-                    # If next node is the leaf, our node is unnecessary.
-                    # Concat our path with leaf path and return reference to the leaf.
-                    path = NibblePath.combine(node.path, child.path)
-                    new_node = Leaf(path, child.data)
-                elif type(child) == Extension:
-                    # If next node is the extension, merge this and next node into one.
-                    path = NibblePath.combine(node.path, child.path)
-                    new_node = Extension(path, child.next_ref)
-                elif type(child) == Branch:
-                    # If next node is the branch, concatenate paths and update stored reference.
-                    path = NibblePath.combine(node.path, stored_path)
-                    new_node = Extension(path, stored_ref)
-
-                new_reference = self._store_node(new_node)
-                return MPT._DeleteAction.UPDATED, new_reference
-
-        elif type(node) == Branch:
-            # For branch node things are quite complicated.
-            # If rest of the key is empty and there is stored value, just clear value field.
-            # Otherwise call _delete for the appropriate branch.
-            # At this step we will have delete action and (possibly) index of the branch we're working with.
-            #
-            # Then, if next node was updated or was useless branch, just update reference.
-            # If `_DeleteAction` is `DELETED` then either the next node or value of this node was removed.
-            # We have to check if there is at least 2 branches or 1 branch and value still persist in this node.
-            # If there are no branches and no value left, delete this node completely.
-            # If there is a value but no branches, create leaf node with value and empty path
-            # and return `USELESS_BRANCH` action.
-            # If there is an only branch and no value, merge nibble of this branch and path of the underlying node
-            # and return `USELESS_BRANCH` action.
-            # Otherwise our branch isn't useless and was updated.
-
-            action = None
-            idx = None
-            info = None
-
-            assert (
-                len(path) != 0 or len(node.data) != 0
-            ), "Empty path or empty branch node in _delete"
-
-            # Decide if we need to remove value of this node or go deeper.
-            if len(path) == 0 and len(node.data) == 0:
-                # This branch node has no value thus we can't delete it.
-                raise BranchPathError("Branch node has no value so cannot be deleted")
-            elif len(path) == 0 and len(node.data) != 0:
-                node.data = b""
-                action = MPT._DeleteAction.DELETED
-            else:
-                # Store idx of the branch we're working with.
-                idx = path.at(0)
-
-                if len(node.branches[idx]) == 0:
-                    raise BranchPathError(
-                        "Empty branch in _delete, could not delete the value."
-                    )
-
-                action, info = self._delete(node.branches[idx], path.consume(1))
-                node.branches[idx] = b""
-
-            if action == MPT._DeleteAction.DELETED:
-                non_empty_count = sum(
-                    map(lambda x: 1 if len(x) > 0 else 0, node.branches)
-                )
-
-                if non_empty_count == 0 and len(node.data) == 0:
-                    # Branch node is empty, just delete it.
-                    return MPT._DeleteAction.DELETED, None
-                elif non_empty_count == 0 and len(node.data) != 0:
-                    # No branches, just value.
-                    path = NibblePath([])
-                    reference = self._store_node(Leaf(path, node.data))
-
-                    return MPT._DeleteAction.USELESS_BRANCH, (
-                        path,
-                        reference,
-                    )
-                elif non_empty_count == 1 and len(node.data) == 0:
-                    # No value and one branch
-                    return self._build_new_node_from_last_branch(node.branches)
-                else:
-                    # Branch has value and 1+ branches or no value and 2+ branches.
-                    # It isn't useless, so action is `UPDATED`.
-                    reference = self._store_node(node)
-                    return MPT._DeleteAction.UPDATED, reference
-            elif action == MPT._DeleteAction.UPDATED:
-                # Just update reference.
-                next_ref = info
-                node.branches[idx] = next_ref
-                reference = self._store_node(node)
-                return MPT._DeleteAction.UPDATED, reference
-            elif action == MPT._DeleteAction.USELESS_BRANCH:
-                # Just update reference.
-                _, next_ref = info
-                node.branches[idx] = next_ref
-                reference = self._store_node(node)
-                return MPT._DeleteAction.UPDATED, reference
-
-    def _build_new_node_from_last_branch(
-        self, branches: List[bytes]
-    ) -> Tuple[_DeleteAction, bytes]:
-        """
-        Combine nibble of the only branch left with underlying node and creates new node.
-
-        Parameters
-        ----------
-        branches : list of bytes
-            List of references to the branches.
-
-        Returns
-        -------
-        tuple
-            Tuple of `_DeleteAction` and reference to the new node.
-
-        Raises
-        ------
-        KeyError
-            If there is no branches left.
-
-        """
-
-        # Find the index of the only stored branch.
-        idx = 0
-        for i in range(len(branches)):
-            if len(branches[i]) > 0:
-                idx = i
-                break
-
-        # Path in leaf will contain one nibble (at this step).
-        prefix_nibble = NibblePath([idx], offset=1)
-
-        child = self._get_node(branches[idx])
-
-        path = None
-        node = None
-
-        # Build new node.
-        # If next node is leaf or extension, merge it.
-        # If next node is branch, create an extension node with one nibble in path.
-        if type(child) == Leaf:
-            path = NibblePath.combine(prefix_nibble, child.path)
-            node = Leaf(path, child.data)
-        elif type(child) == Extension:
-            path = NibblePath.combine(prefix_nibble, child.path)
-            node = Extension(path, child.next_ref)
-        elif type(child) == Branch:
-            path = prefix_nibble
-            node = Extension(path, branches[idx])
-
-        reference = self._store_node(node)
-
-        return MPT._DeleteAction.USELESS_BRANCH, (path, reference)
+from enum import Enum
+from .utils.hash import keccak_hash
+from .utils.nibble_path import NibblePath
+from .proof import Proof
+from .utils.node import (
+    Node,
+    Leaf,
+    Extension,
+    Branch,
+    _prepare_reference_for_encoding,
+    _prepare_reference_for_usage,
+)
+from .utils.exceptions import (
+    KeyNotFoundError,
+    ExtensionPathError,
+    LeafPathError,
+    BranchPathError,
+    PoeError,
+    PoiError,
+    InvalidNodeError,
+)
+from typing import Tuple, List, Union, Optional
+import rlp
+
+
+def _holds_value(node: Node) -> bool:
+    """Return True if a path that ends at this node has its value in this node."""
+    if isinstance(node, Leaf):
+        return len(node.path) == 0
+    return isinstance(node, Branch) and len(node.data) != 0
+
+
+class MPT:
+    """
+    This class represents a trie.
+
+    MerklePatriciaTrie works like a wrapper over provided storage.
+    Storage must implement dict-like interface. Any data structure
+    that implements `__getitem__` and `__setitem__` should be OK.
+
+    IMPORTANT: MPT's use the terms path, node_ref, node value a lot
+    and it can cause some confusion.
+    -   path is a sequence of nibbles. The path is used for database lookup
+        and consists of the steps down the tree that are needed to reach the value.
+    -   node_ref is a reference to a node in the storage. The node ref is a
+        hash of the node itself.
+    -   node is the object that represents a node in the trie. It can be a leaf,
+        an extension or a branch. How many values are stored in a node depends on
+        the node type.
+
+    Methods
+    -------
+    get(encoded_key)
+        This method gets a value associtated with provided key.
+    update(encoded_key, encoded_value)
+        This method updates a provided key-value pair into the trie.
+    delete(encoded_key)
+        This method removes a value associtated with provided key.
+    """
+
+    def __init__(
+        self, storage: dict, root: Union[bytes, None] = None, secure: bool = False
+    ) -> ...:
+        """
+        Create a new instance of MPT.
+
+        Parameters
+        ----------
+        storage: dict-like
+            Data structure to store all the data of MPT.
+        root: bytes
+            (Optional) Root node (not root hash!) of the trie.
+            If not provided, tree will be considered empty.
+        secure: bool
+            (Optional) In secure mode all the keys are hashed using keccak256 internally.
+        """
+        self._storage = storage
+        if root == ... or root is None:
+            self._root = Node.EMPTY_HASH
+        else:
+            self._root = root
+        self._secure = secure
+
+    # PROPERTIES
+    @property
+    def secure(self) -> bool:
+        """Return True if trie is in secure mode."""
+        return self._secure
+
+    # DUNDER METHODS
+    def __len__(self) -> int:
+        """Return the number of nodes in the trie."""
+        return len(self._storage.keys())
+
+    def __contains__(self, encoded_key: bytes) -> bool:
+        return self.contains(encoded_key)
+
+    def __getitem__(self, encoded_key: bytes) -> bytes:
+        return self.get(encoded_key)
+
+    def __setitem__(self, encoded_key: bytes, encoded_value: bytes) -> None:
+        self.update(encoded_key, encoded_value)
+
+    def __delitem__(self, encoded_key: bytes) -> None:
+        self.delete(encoded_key)
+
+    def __hash__(self) -> int:
+        return int(keccak_hash(self.root_hash(), hexdigest=True), 16)
+
+    def __eq__(self, other: "MPT") -> bool:
+        if not isinstance(other, MPT):
+            return False
+        return self.__hash__() == other.__hash__()
+
+    # TREE FUNCTIONS
+    def root(self) -> Union[bytes, None]:
+        """
+        Return a root node of the trie.
+
+        Returns
+        -------
+        Node
+            Root node of the trie. Type is `bytes` if trie isn't empty and `None` otherwise.
+        """
+        return self._root
+
+    def root_hash(self) -> bytes:
+        """
+        Returns a hash of the trie's root node.
+
+        For empty trie it's the hash of the RLP-encoded empty string.
+
+        Returns
+        -------
+        bytes
+            Hash of the trie's root node.
+        """
+        if not self._root:
+            return Node.EMPTY_HASH
+        elif len(self._root) == 32:  # Root is already a hash
+            return self._root
+        else:
+            return keccak_hash(self._root)
+
+    def get(self, encoded_key: bytes) -> bytes:
+        """
+        This method gets a value associtated with provided key.
+
+        This method does not RLP-encode or hash the key.
+        If you use encoded keys, you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+
+        Returns
+        -------
+        bytes
+            Stored value associated with provided key.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no value assotiated with provided key.
+        """
+        if not self._root:
+            raise ValueError("Trie is empty")
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        path = NibblePath(encoded_key)
+        result_node = self._get(self._root, path)
+        return result_node.data
+
+    def update(self, encoded_key: bytes, encoded_value: bytes) -> ...:
+        """
+        This method updates a provided key-value pair into the trie.
+
+        If there is no such a key in the trie, a new entry will be created.
+        Otherwise value associtaed with key is updated.
+
+        This method does not RLP-encode the key and value.
+        If you use encoded keys and values, you should encode them yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+        encoded_value: bytes
+            Value or RLP-encoded value.
+
+        Raises
+        ------
+        TypeError
+            TypeError is raised if the value is not bytes.
+        """
+        # Refuse the value before any node is stored
+        if not isinstance(encoded_value, (bytes, bytearray)):
+            raise TypeError(
+                "The value must be type bytes, not {}".format(type(encoded_value))
+            )
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        path = NibblePath(encoded_key)
+        result = self._update(self._root, path, encoded_value)
+        self._root = result
+
+    # Find out if the key is in the trie
+    def contains(self, key: bytes, hash_key: bool = True) -> bool:
+        """
+        This method checks if the key is in the trie.
+
+        This method does not RLP-encode the key.
+        If you use encoded keys, you should encode them yourself.
+        """
+        # Read the root only once, another thread may be changing the trie
+        root = self._root
+        if not root or root == Node.EMPTY_HASH:
+            return False
+
+        if self._secure and hash_key:
+            key = keccak_hash(key)
+
+        path = NibblePath(key)
+        node = self._contains(root, path)
+
+        # If the node is a branch check if it has a value
+        # (the search may also have stopped here because a branch slot is empty)
+        if isinstance(node, Branch):
+            if len(path) == 0 and node.data != None and node.data != b"":
+                return True
+            else:
+                return False
+
+        # If the node is an extension the key is not in the trie
+        # Extension nodes dont hold data
+        if isinstance(node, Extension):
+            return False
+
+        # If the node is a leaf the key is in the trie
+        if isinstance(node, Leaf):
+            if node.path == path:
+                return True
+            else:
+                return False
+        else:
+            # Path doesnt match so key is not in the trie
+            return False
+
+        raise Exception("This should never happen")
+
+    def delete(self, encoded_key: bytes) -> ...:
+        """
+        This method removes a value associtated with provided key.
+
+        This method does not RLP-encode the key.
+        If you use encoded keys, you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            The key or RLP-encoded key.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no value assotiated with provided key.
+        """
+
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Trie is empty")
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        path = NibblePath(encoded_key)
+        action, info = self._delete(self._root, path)
+
+        if action == MPT._DeleteAction.DELETED:
+            # Trie is empty
+            self._root = None
+        elif action == MPT._DeleteAction.UPDATED:
+            new_root = info
+            self._root = new_root
+        elif action == MPT._DeleteAction.USELESS_BRANCH:
+            _, new_root = info
+            self._root = new_root
+
+    # PROOF FUNCTIONS
+    def get_proof_of_inclusion(self, encoded_key: bytes) -> Proof:
+        """
+        This method returns a proof of inclusion for a key.
+
+        Proof is a list of nodes that are necessary to reconstruct the trie.
+
+        .. attention::
+            This method does not RLP-encode the key.
+            If you use encoded keys, you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+
+        Returns
+        -------
+        proof : Proof
+            The proof object for the proof of inclusion
+
+        Raises
+        ------
+        ValueError
+            ValueError is raised if the trie is empty.
+        """
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Cannot generate a proof for empty trie")
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        proof_list = self._get_proof_of_inclusion(
+            self._root, NibblePath(encoded_key), []
+        )
+        return Proof(
+            target_key=encoded_key,
+            root_hash=self.root(),
+            proof=tuple(proof_list),
+            proof_type=b"MPT-POI",
+        )
+
+    def verify_proof_of_inclusion(self, proof: Proof) -> bool:
+        """
+        This method verifies a proof object containing a proof of inclusion.
+
+        Parameters
+        ----------
+        proof : Proof
+            The proof object to verify.
+
+        Returns
+        -------
+        bool
+            True if the proof is valid, False otherwise.
+
+        Raises
+        ------
+        ValueError
+            ValueError is raised if the trie is empty.
+        TypeError
+            TypeError is raised if the proof is not a proof of inclusion.
+        """
+        if proof.type != b"MPT-POI":
+            raise TypeError("The given proof is not a proof of inclusion.")
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Cannot verify a proof for empty trie.")
+
+        # Compare the root hashes
+        if self.root_hash() != keccak_hash(proof.proof[0]):
+            return False
+
+        # Recreate a partial trie from the proof and walk down from root to taget
+        # node.
+        proof_storage = {}
+        for encoded_node in proof.proof:
+            try:
+                node = Node.decode(encoded_node)
+            except rlp.DecodingError:
+                return False
+            # An altered node can decode to the same node as the genuine one
+            if node.encode() != encoded_node:
+                return False
+            proof_storage[Node.into_reference(node)] = encoded_node
+        # The root is known by its hash, however small the root node is
+        proof_storage[self.root_hash()] = proof.proof[0]
+        valid = self._verify_proof_of_inclusion(
+            self.root_hash(), NibblePath(proof.target_key), proof_storage
+        )
+        # Check if the current trie hash is the sam as the proof root. The proof
+        # holds the root itself, which for a small trie is the encoded root node.
+        proof_root_hash = MPT({}, proof.trie_root).root_hash()
+        if valid and self.root_hash() == proof_root_hash:
+            return True
+        else:
+            return False
+
+    def get_proof_of_exclusion(self, encoded_key: bytes) -> Proof:
+        """
+        This method returns a proof of exclusion for a key.
+
+        Proof is a list of nodes that are necessary to reconstruct the trie.
+        This method does not RLP-encode the key. If you use encoded keys,
+        you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+
+        Returns
+        -------
+        proof : Proof
+            The Proof object for the proof of exclusion.
+
+        Raises
+        ------
+        ValueError
+            ValueError is raised if the trie is empty.
+        PoeError
+            PoeError is raised if the key is in the trie.
+        """
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Cannot generate a proof for empty trie")
+
+        # Check if the key is in the trie
+        if self.contains(encoded_key):
+            raise PoeError("Cannot generate a proof for a key that is in the trie")
+
+        if self._secure:
+            encoded_key = keccak_hash(encoded_key)
+
+        path = NibblePath(encoded_key)
+        node, proof_list = self._get_proof_of_exclusion(self._root, path, [])
+
+        # Add a leaf node with the key to the proof
+        proof_list.append(Leaf(path, b"null").encode())
+
+        # If the node is a branch check if i thas a value
+        # Can be None or b'' (b'' is used when trie is in secure mode)
+        if isinstance(node, Branch):
+            if len(path) == 0 and node.data != None and node.data != b"":
+                raise PoeError("This should never happen")
+
+        # If the node is a leaf the key is in the trie
+        if isinstance(node, Leaf):
+            if node.path == path:
+                raise PoeError("This should never happen")
+
+        return Proof(
+            target_key=encoded_key,
+            root_hash=self.root_hash(),
+            proof=tuple(proof_list),
+            proof_type=b"MPT-POE",
+        )
+
+    def verify_proof_of_exclusion(self, proof: Proof) -> bool:
+        """
+        This method verifies a proof of exclusion for a key.
+
+        This method does not RLP-encode the key. If you use encoded keys,
+        you should encode it yourself.
+
+        Parameters
+        ----------
+        encoded_key: bytes
+            Key or RLP-encoded key.
+        proof: list of bytes
+            Proof of exclusion hash for a key.
+
+        Returns
+        -------
+        bool
+            True if the proof is valid, False otherwise.
+
+        Raises
+        ------
+        ValueError
+            ValueError is raised if the trie is empty.
+        TypeError
+            TypeError is raised if the proof is not a proof of exclusion.
+        """
+        if proof.type != b"MPT-POE":
+            raise TypeError("The given proof is not a proof of exclusion.")
+
+        if self._root is None or self._root == Node.EMPTY_HASH:
+            raise ValueError("Cannot verify a proof for empty trie")
+
+        # Compare the root hashes
+        if self.root_hash() != keccak_hash(proof.proof[0]):
+            return False
+
+        if Node.decode(proof.proof[-1]).data != b"null":
+            return False
+
+        # Recreate a partial trie from the proof and walk down from root to taget
+        # node.
+        proof_storage = {}
+        for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.
+            node = Node.decode(encoded_node)
+            # An altered node can decode to the same node as the genuine one
+            if node.encode() != encoded_node:
+                return False
+            proof_storage[Node.into_reference(node)] = encoded_node
+
+        path = NibblePath(proof.target_key)
+        # The root is known by its hash, however small the root node is
+        proof_storage.pop(Node.into_reference(Node.decode(proof.proof[0])), None)
+        proof_storage[self.root_hash()] = proof.proof[0]
+        node, keys_left = self._verify_proof_of_exclusion(
+            self.root_hash(), path, proof_storage
+        )
+
+        # The proof has to reach the node that shows that the key is missing
+        if node is None:
+            return False
+
+        # There should be no keys left in the proof
+        if len(keys_left.keys()) != 0:
+            return False
+
+        # Check if the result node is valid
+        # If the node is a branch check if it has a value
+        if isinstance(node, Branch):
+            if len(path) == 0 and len(node.data) != 0:
+                return False
+
+        # If the node is a leaf with the rest of the path the key is in the trie
+        if isinstance(node, Leaf):
+            if node.path == path:
+                return False
+
+        # Proof passed if it was made for the current root
+        return self.root_hash() == MPT({}, proof.trie_root).root_hash()
+
+    # CODEC
+    def encode(self) -> bytes:
+        """Encode the trie into rlp."""
+        storage_list = [
+            _prepare_reference_for_encoding(node) for node in self._storage.values()
+        ]
+        root = self.root_hash() if self.root() is None else self.root()
+        content = [root, storage_list, self._secure]
+        return rlp.encode(content)
+
+    @staticmethod
+    def decode(encoded_data: bytes) -> "MPT":
+        """
+        Decode the trie from rlp.
+
+        Parameters
+        ----------
+        encoded_data : bytes
+            The rlp encoded trie.
+
+        Returns
+        -------
+        MMPT
+            The decoded trie.
+        """
+        sedes = rlp.sedes.List(
+            [
+                rlp.sedes.binary,
+                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.boolean,
+            ]
+        )
+        root, storage_list, secure = rlp.decode(encoded_data, sedes=sedes)
+        storage = {}
+        for encoded_node in storage_list:
+            # Nodes are stored as the RPL encoded version of the full node
+            storage[keccak_hash(encoded_node)] = _prepare_reference_for_usage(
+                encoded_node
+            )
+
+        return MPT(storage=storage, root=root, secure=secure)
+
+    # SUPPORTING METHODS
+    def _get_node(self, node_ref: bytes) -> Node:
+        """This method gets a node from storage."""
+        raw_node = None
+
+        # Okey maybe it is alright like this because an RLP encoded node will
+        # still get decoded
+        # If the node_ref is already a node, just return it
+        if (
+            isinstance(node_ref, Extension)
+            or isinstance(node_ref, Leaf)
+            or isinstance(node_ref, Branch)
+        ):
+            return node_ref
+
+        # Otherwise try to get it from storage or decode it from RLP
+        if len(node_ref) == 32:
+            raw_node = self._storage[node_ref]
+            if isinstance(raw_node, Node):
+                return raw_node
+        else:
+            raw_node = node_ref
+
+        decoded_node = Node.decode(raw_node)
+        if not (
+            isinstance(decoded_node, Extension)
+            or isinstance(decoded_node, Leaf)
+            or isinstance(decoded_node, Branch)
+        ):
+            raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
+        return decoded_node
+
+    def _get(self, node_ref: bytes, path: NibblePath) -> bytes:
+        """
+        Get support method.
+
+        Returns a value associated with provided key.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+
+        Returns
+        -------
+        bytes
+            Value associated with provided key.
+
+        Raises
+        ------
+        KeyNotFoundError
+            KeyError is raised if there is no value assotiated with provided key.
+        ExtensionPathError, BranchPathError, LeafPathError, InvalidNodeError, ExtentionPathError
+            Raised if the path is not valid.
+        """
+        node = self._get_node(node_ref)
+
+        # If path is empty, our travel is over. The key is only in the trie
+        # if this node holds the value of exactly this path.
+        if len(path) == 0:
+            if not _holds_value(node):
+                raise KeyNotFoundError("There is no value stored at this path.")
+            return node
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.
+            if node.path == path:
+                return node
+            else:
+                raise KeyNotFoundError(
+                    "The leaf key and search key do not match."
+                    " Leaf key: {}, search key: {}".format(node.path, path)
+                )
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                return self._get(node.next_ref, rest_path)
+            else:
+                raise ExtensionPathError(
+                    "Something wrong with the path in the extension."
+                    " Extension path: {}, search path: {}".format(node.path, path)
+                )
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                return self._get(branch, path.consume(1))
+            else:
+                raise BranchPathError(
+                    "Branch slot is empty."
+                    " Branch: {}, search path: {}".format(node.branches, path)
+                )
+
+        raise InvalidNodeError("Invalid node type {}".format(type(node)))
+
+    def _contains(self, node_ref: bytes, path: NibblePath) -> bool:
+        """
+        contains support method.
+
+        Only returns the node as close to the end of the path as possible.
+        The main contains method will check if this node has a value, and
+        if this value is the one we're looking for.
+        """
+        node = self._get_node(node_ref)
+
+        # If path is empty, our travel is over. Main `get` method
+        # will check if this node has a value.
+        if len(path) == 0:
+            return node
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.(we hope its the wrong leaf but
+            # that is up to the main method).
+            return node
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                return self._contains(node.next_ref, rest_path)
+            else:
+                return node
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                return self._contains(branch, path.consume(1))
+            else:
+                # This is the furthest node we can go.
+                return node
+
+        raise InvalidNodeError("Invalid node type {}".format(type(node)))
+
+    def _get_proof_of_inclusion(
+        self, node_ref: bytes, path: NibblePath, proof: dict
+    ) -> dict:
+        """
+        Get proof of inclusion support method.
+
+        Used to iterate over the trie and get a proof of inclusion for a node ref.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+        proof: dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Returns
+        -------
+        dict
+            Dictionary with nodes in the proof up untill now.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no node assotiated with provided key.
+        LeafPathError, InvalidNodeError, ExtentionPathError, BranchPathError
+            Raised if the path is not valid.
+        """
+        # Get the node from the reference
+        node = self._get_node(node_ref)
+
+        # print(type(node))
+
+        if len(path) == 0:
+            # If path is empty, we've found the node.
+            # The node doesnt have to be a leaf.
+            if not _holds_value(node):
+                raise KeyNotFoundError("There is no value stored at this path.")
+            proof.append(node.encode())
+            return proof
+
+        if isinstance(node, Leaf):
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.
+            if node.path == path:
+                proof.append(node.encode())
+                return proof
+            else:
+                raise LeafPathError(
+                    "The leaf key and search key do not match"
+                    " Leaf key: {}, search key: {}".format(node.path, path)
+                )
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                proof.append(node.encode())
+                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)
+            else:
+                raise ExtensionPathError(
+                    "Something wrong with the path in the extension"
+                    " Extension path: {}, search path: {}".format(node.path, path)
+                )
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                proof.append(node.encode())
+                return self._get_proof_of_inclusion(branch, path.consume(1), proof)
+            else:
+                raise BranchPathError(
+                    "Branch slot is empty."
+                    " Branch: {}, search path: {}".format(node.branches, path)
+                )
+
+        raise InvalidNodeError("Unknown node type {}".format(node))
+
+    def _verify_proof_of_inclusion(
+        self, node_ref: bytes, path: NibblePath, proof_storage: dict
+    ) -> bool:
+        """
+        Verify proof of inclusion support method.
+
+        Used to verify a proof of inclusion for a node ref.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+        proof: dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Returns
+        -------
+        bool
+            True if the proof is valid, False otherwise.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no node assotiated with provided key.
+        ExtensionPathError, InvalidNodeError, LeafPathError, BranchPathError, InvalidNodeError
+            Raised if the path is not valid.
+        """
+        # Get the right node from the proof storage
+        if not (
+            isinstance(node_ref, Leaf)
+            or isinstance(node_ref, Extension)
+            or isinstance(node_ref, Branch)
+        ):
+            # Otherwise try to get it from storage or decode it from RLP
+            if len(node_ref) == 32:
+                try:
+                    raw_node = proof_storage[node_ref]
+                except KeyError:
+                    return False
+            else:
+                raw_node = node_ref
+            node = Node.decode(raw_node)
+        else:
+            node = node_ref
+
+        # If path is empty, our travel is over. Main `get` method
+        # will check if this node has a value.
+        if len(path) == 0:
+            # check extension and node, leaf already handeled
+            if isinstance(node, Extension):
+                return False
+            # Check if the branch has data or the path of the leaf is used up
+            return _holds_value(node)
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.
+            if node.path == path:
+                return True
+            else:
+                return False
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                return self._verify_proof_of_inclusion(
+                    node.next_ref, rest_path, proof_storage
+                )
+            else:
+                raise ExtensionPathError(
+                    "Something wrong with the path in the extension."
+                    " Extension path: {}, search path: {}".format(node.path, path)
+                )
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                return self._verify_proof_of_inclusion(
+                    branch, path.consume(1), proof_storage
+                )
+            else:
+                raise BranchPathError(
+                    "Branch slot is empty."
+                    " Branch: {}, search path: {}".format(node.branches, path)
+                )
+
+        raise InvalidNodeError("Unknown node type {}".format(node))
+
+    def _get_proof_of_exclusion(
+        self, node_ref: bytes, path: NibblePath, proof: dict
+    ) -> dict:
+        """
+        Get proof of exclusion support method.
+
+        Used to iterate over the trie and get a proof of exclusion for a node ref.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+        proof: dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Returns
+        -------
+        dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no node assotiated with provided key.
+        """
+        node = self._get_node(node_ref)
+
+        # print(type(node))
+
+        # If path is empty, our travel is over. Main `get` method
+        # will check if this node has a value.
+        if len(path) == 0:
+            proof.append(node.encode())
+            return node, proof
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.(we hope its the wrong leaf but
+            # that is up to the main method).
+            proof.append(node.encode())
+            return node, proof
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                proof.append(node.encode())
+                return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
+            else:
+                # The diverging extension is what shows that the key is missing.
+                proof.append(node.encode())
+                return node, proof
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            proof.append(node.encode())
+            if len(branch) > 0:
+                return self._get_proof_of_exclusion(branch, path.consume(1), proof)
+            else:
+                # This is the furthest node we can go.
+                return node, proof
+
+        raise InvalidNodeError("Invalid node type {}".format(type(node)))
+
+    def _verify_proof_of_exclusion(
+        self,
+        node_ref: Union[bytes, Leaf, Branch, Extension],
+        path: NibblePath,
+        proof_storage: dict,
+    ) -> Tuple[bool, dict]:
+        """
+        Verify proof of exclusion support method.
+
+        Used to verify a proof of exclusion for a node ref.
+
+        Parameters
+        ----------
+        node_ref: bytes, Leaf, Branch, Extension
+            Reference to a node or the node itself.
+        path: NibblePath
+            Path to a value.
+        proof: dict
+            Dictionary with nodes. (empty in the beginning)
+
+        Returns
+        -------
+        bool, node_ref
+            True if this the last node in the proof, the next node ref otherwise.
+        proof_storage: dict
+            Dictionary with nodes.
+
+        Raises
+        ------
+        PoeError
+            PoeError when there is something wrong with the proof.
+        InvalidNodeError
+            InvalidNodeError when there is an invalid node in the proof.
+        """
+        # Get the right node from the proof storage
+        if not (
+            isinstance(node_ref, Leaf)
+            or isinstance(node_ref, Extension)
+            or isinstance(node_ref, Branch)
+        ):
+            # Otherwise try to get it from storage or decode it from RLP
+            if len(node_ref) == 32:
+                try:
+                    raw_node = proof_storage[node_ref]
+                except KeyError:
+                    # The proof stops before it shows that the key is missing
+                    return None, proof_storage
+            else:
+                raw_node = node_ref
+            node = Node.decode(raw_node)
+        else:
+            node = node_ref
+
+        # Remove the used reference and node from the dictionary
+        if proof_storage.pop(node_ref, None) == None:
+            raise PoeError(
+                "The proof storage returned a node with value None,"
+                " this should not be possible."
+            )
+
+        # If path is empty, our travel is over. Main `get` method
+        # will check if this node has a value.
+        if len(path) == 0:
+            return node, proof_storage
+
+        if type(node) is Leaf:
+            # If we've found a leaf, it's either the leaf we're
+            # looking for or wrong leaf.(we hope its the wrong leaf but
+            # that is up to the main method).
+            return node, proof_storage
+
+        elif type(node) is Extension:
+            # If we've found an extension, we need to go deeper.
+            if path.starts_with(node.path):
+                rest_path = path.consume(len(node.path))
+                return self._verify_proof_of_exclusion(
+                    node.next_ref, rest_path, proof_storage
+                )
+            else:
+                return node, proof_storage
+
+        elif type(node) is Branch:
+            # If we've found a branch node, go to the appropriate branch.
+            branch = node.branches[path.at(0)]
+            if len(branch) > 0:
+                return self._verify_proof_of_exclusion(
+                    branch, path.consume(1), proof_storage
+                )
+            else:
+                # This is the furthest node we can go.
+                return node, proof_storage
+
+        raise InvalidNodeError("Invalid node type {}".format(type(node)))
+
+    def _update(self, node_ref: bytes, path: NibblePath, value: bytes) -> bytes:
+        """
+        Update support method.
+
+        Updates a value associated with provided key.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to a node.
+        path: NibblePath
+            Path to a value.
+        value: bytes
+            Value to be stored.
+
+        Returns
+        -------
+        bytes
+            New root of the trie.
+
+        Raises
+        ------
+        KeyError
+            KeyError is raised if there is no value assotiated with provided key.
+        """
+        if not node_ref or node_ref == Node.EMPTY_HASH:
+            return self._store_node(Leaf(path, value))
+
+        node = self._get_node(node_ref)
+
+        if type(node) == Leaf:
+            # If we're updating the leaf there are 2 possible ways:
+            # 1. Path is equals to the rest of the key. Then we should
+            #    just update value of this leaf.
+            # 2. Path differs. Then we should split this node into several nodes.
+
+            if node.path == path:
+                # Path is the same. Just change the value.
+                node.data = value
+                return self._store_node(node)
+
+            # If we are here, we have to split the node.
+
+            # Find the common part of the key and leaf's path.
+            common_prefix = path.common_prefix(node.path)
+
+            # Cut off the common part.
+            path.consume(len(common_prefix))
+            node.path.consume(len(common_prefix))
+
+            # Create branch node to split paths.
+            branch_reference = self._create_branch_node(
+                path, value, node.path, node.data
+            )
+
+            # If common part isn't empty, we have to create an extension node before branch node.
+            # Otherwise, we need just branch node.
+            if len(common_prefix) != 0:
+                return self._store_node(Extension(common_prefix, branch_reference))
+            else:
+                return branch_reference
+
+        elif type(node) == Extension:
+            # If we're updating an extenstion there are 2 possible ways:
+            # 1. Key starts with the extension node's path.
+            #    Then we just go ahead and all the work will be done there.
+            # 2. Key doesn't start with extension node's path. Then we have to split extension node.
+
+            if path.starts_with(node.path):
+                # Just go ahead.
+                new_reference = self._update(
+                    node.next_ref, path.consume(len(node.path)), value
+                )
+                return self._store_node(Extension(node.path, new_reference))
+
+            # Split extension node.
+
+            # Find the common part of the key and extension's path.
+            common_prefix = path.common_prefix(node.path)
+
+            # Cut off the common part.
+            path.consume(len(common_prefix))
+            node.path.consume(len(common_prefix))
+
+            # Create an empty branch node. It may have or have not the value depending on the length
+            # of the rest of the key.
+            branches = [b""] * 16
+            branch_value = value if len(path) == 0 else b""
+
+            # If needed, create leaf branch for the value we're inserting.
+            self._create_branch_leaf(path, value, branches)
+            # If needed, create an extension node for the rest of the extension's path.
+            self._create_branch_extension(node.path, node.next_ref, branches)
+
+            branch_reference = self._store_node(Branch(branches, branch_value))
+
+            # If common part isn't empty, we have to create an extension node before branch node.
+            # Otherwise, we need just branch node.
+            if len(common_prefix) != 0:
+                return self._store_node(Extension(common_prefix, branch_reference))
+            else:
+                return branch_reference
+
+        elif type(node) == Branch:
+            # For branch node things are easy.
+            # 1. If key is empty, just store value in this node.
+            # 2. If key isn't empty, just call `_update` with appropiate branch reference.
+
+            if len(path) == 0:
+                return self._store_node(Branch(node.branches, value))
+
+            idx = path.at(0)
+            new_reference = self._update(node.branches[idx], path.consume(1), value)
+
+            node.branches[idx] = new_reference
+
+            return self._store_node(node)
+
+    def _create_branch_node(
+        self, path_a: NibblePath, value_a: bytes, path_b: NibblePath, value_b: bytes
+    ) -> bytes:
+        """
+        Create a branch node with up to two leaves and maybe value.
+
+        Parameters
+        ----------
+        path_a: NibblePath
+            Path to a leaf.
+        value_a: bytes
+            Value to be stored in a leaf.
+        path_b: NibblePath
+            Path to a leaf.
+        value_b: bytes
+            Value to be stored in a leaf.
+
+        Returns
+        -------
+        bytes
+            Reference to created node.
+        """
+
+        assert len(path_a) != 0 or len(path_b) != 0
+
+        branches = [b""] * 16
+
+        branch_value = b""
+        if len(path_a) == 0:
+            branch_value = value_a
+        elif len(path_b) == 0:
+            branch_value = value_b
+
+        self._create_branch_leaf(path_a, value_a, branches)
+        self._create_branch_leaf(path_b, value_b, branches)
+
+        return self._store_node(Branch(branches, branch_value))
+
+    def _create_branch_leaf(
+        self, path: NibblePath, value: bytes, branches: List[bytes]
+    ) -> ...:
+        """
+        If path isn't empty, creates leaf node and stores reference in appropriate branch.
+
+        Parameters
+        ----------
+        path: NibblePath
+            Path to a leaf.
+        value: bytes
+            Value to be stored in a leaf.
+        branches: list of bytes
+            List of references to nodes.
+
+        Returns
+        -------
+        None
+        """
+        if len(path) > 0:
+            idx = path.at(0)
+
+            leaf_ref = self._store_node(Leaf(path.consume(1), value))
+            branches[idx] = leaf_ref
+
+    def _create_branch_extension(
+        self, path: NibblePath, next_ref: bytes, branches: List[bytes]
+    ) -> ...:
+        """
+        If needed, create an extension node and stores reference in appropriate branch.
+        Otherwise just stores provided reference.
+
+        Parameters
+        ----------
+        path: NibblePath
+            Path to an extension node.
+        next_ref: bytes
+            Reference to a node.
+        branches: list of bytes
+            List of references to nodes.
+
+        Returns
+        -------
+        None
+        """
+        assert (
+            len(path) >= 1
+        ), "Path for extension node should contain at least one nibble"
+
+        if len(path) == 1:
+            branches[path.at(0)] = next_ref
+        else:
+            idx = path.at(0)
+            reference = self._store_node(Extension(path.consume(1), next_ref))
+            branches[idx] = reference
+
+    def _store_node(self, node: Node) -> bytes:
+        """
+        Build the reference from the node and if needed saves node in the storage.
+
+        Parameters
+        ----------
+        node: Node
+            Node to be stored.
+
+        Returns
+        -------
+        bytes
+            Reference to the node.
+        """
+        reference = Node.into_reference(node)
+        if len(reference) == 32:
+            self._storage[reference] = node.encode()
+        return reference
+
+    class _DeleteAction(Enum):
+        """
+        Enum that shows which action was performed on the previous step of the deletion.
+        """
+
+        # Node was deleted. Returned value should be (_DeleteAction, None).
+        DELETED = (1,)
+        # Node was updated. Returned value should be (_DeleteAction, new_node_reference)
+        UPDATED = (2,)
+        # Branch became useless. Returned value should be
+        # (_DeleteAction, (path_to_new_reference, new_node_reference))
+        USELESS_BRANCH = 3
+
+    def _delete(
+        self, node_ref: bytes, path: NibblePath
+    ) -> Tuple[_DeleteAction, Optional[bytes]]:
+        """
+        Delete method helper.
+
+        Parameters
+        ----------
+        node_ref: bytes
+            Reference to the node.
+        path: NibblePath
+            Path to the node.
+
+        Returns
+        -------
+        _DeleteAction
+            Action that was performed on the previous step of the deletion.
+
+        """
+
+        node = self._get_node(node_ref)
+
+        if type(node) == Leaf:
+            # If it's leaf node, then it's either node we need or incorrect key provided.
+            if path == node.path:
+                return MPT._DeleteAction.DELETED, None
+            else:
+                raise LeafPathError("Incorrect or non existing path provided")
+
+        elif type(node) == Extension:
+            # Extension node can't be removed directly, it passes delete request to the next node.
+            # After that several options are possible:
+            # 1. Next node was deleted. Then this node should be deleted too.
+            # 2. Next node was updated. Then we should update stored reference.
+            # 3. Next node was useless branch. Then we have to update our node depending on the next node type.
+
+            if not path.starts_with(node.path):
+                raise ExtensionPathError("Incorrect path provided")
+
+            action, info = self._delete(node.next_ref, path.consume(len(node.path)))
+
+            if action == MPT._DeleteAction.DELETED:
+                # Next node was deleted. This node should be deleted also.
+                return action, None
+            elif action == MPT._DeleteAction.UPDATED:
+                # Next node was updated. Update this node too.
+                child_ref = info
+                new_ref = self._store_node(Extension(node.path, child_ref))
+                return action, new_ref
+            elif action == MPT._DeleteAction.USELESS_BRANCH:
+                # Next node was useless branch.
+                stored_path, stored_ref = info
+
+                child = self._get_node(stored_ref)
+
+                new_node = None
+                if type(child) == Leaf:
+                    # If next node is the leaf, our node is unnecessary.
+                    # Concat our path with leaf path and return reference to the leaf.
+                    path = NibblePath.combine(node.path, child.path)
+                    new_node = Leaf(path, child.data)
+                elif type(child) == Extension:
+                    # If next node is the extension, merge this and next node into one.
+                    path = NibblePath.combine(node.path, child.path)
+                    new_node = Extension(path, child.next_ref)
+                elif type(child) == Branch:
+                    # If next node is the branch, concatenate paths and update stored reference.
+                    path = NibblePath.combine(node.path, stored_path)
+                    new_node = Extension(path, stored_ref)
+
+                new_reference = self._store_node(new_node)
+                return MPT._DeleteAction.UPDATED, new_reference
+
+        elif type(node) == Branch:
+            # For branch node things are quite complicated.
+            # If rest of the key is empty and there is stored value, just clear value field.
+            # Otherwise call _delete for the appropriate branch.
+            # At this step we will have delete action and (possibly) index of the branch we're working with.
+            #
+            # Then, if next node was updated or was useless branch, just update reference.
+            # If `_DeleteAction` is `DELETED` then either the next node or value of this node was removed.
+            # We have to check if there is at least 2 branches or 1 branch and value still persist in this node.
+            # If there are no branches and no value left, delete this node completely.
+            # If there is a value but no branches, create leaf node with value and empty path
+            # and return `USELESS_BRANCH` action.
+            # If there is an only branch and no value, merge nibble of this branch and path of the underlying node
+            # and return `USELESS_BRANCH` action.
+            # Otherwise our branch isn't useless and was updated.
+
+            action = None
+            idx = None
+            info = None
+
+            assert (
+                len(path) != 0 or len(node.data) != 0
+            ), "Empty path or empty branch node in _delete"
+
+            # Decide if we need to remove value of this node or go deeper.
+            if len(path) == 0 and len(node.data) == 0:
+                # This branch node has no value thus we can't delete it.
+                raise BranchPathError("Branch node has no value so cannot be deleted")
+            elif len(path) == 0 and len(node.data) != 0:
+                node.data = b""
+                action = MPT._DeleteAction.DELETED
+            else:
+                # Store idx of the branch we're working with.
+                idx = path.at(0)
+
+                if len(node.branches[idx]) == 0:
+                    raise BranchPathError(
+                        "Empty branch in _delete, could not delete the value."
+                    )
+
+                action, info = self._delete(node.branches[idx], path.consume(1))
+                node.branches[idx] = b""
+
+            if action == MPT._DeleteAction.DELETED:
+                non_empty_count = sum(
+                    map(lambda x: 1 if len(x) > 0 else 0, node.branches)
+                )
+
+                if non_empty_count == 0 and len(node.data) == 0:
+                    # Branch node is empty, just delete it.
+                    return MPT._DeleteAction.DELETED, None
+                elif non_empty_count == 0 and len(node.data) != 0:
+                    # No branches, just value.
+                    path = NibblePath([])
+                    reference = self._store_node(Leaf(path, node.data))
+
+                    return MPT._DeleteAction.USELESS_BRANCH, (
+                        path,
+                        reference,
+                    )
+                elif non_empty_count == 1 and len(node.data) == 0:
+                    # No value and one branch
+                    return self._build_new_node_from_last_branch(node.branches)
+                else:
+                    # Branch has value and 1+ branches or no value and 2+ branches.
+                    # It isn't useless, so action is `UPDATED`.
+                    reference = self._store_node(node)
+                    return MPT._DeleteAction.UPDATED, reference
+            elif action == MPT._DeleteAction.UPDATED:
+                # Just update reference.
+                next_ref = info
+                node.branches[idx] = next_ref
+                reference = self._store_node(node)
+                return MPT._DeleteAction.UPDATED, reference
+            elif action == MPT._DeleteAction.USELESS_BRANCH:
+                # Just update reference.
+                _, next_ref = info
+                node.branches[idx] = next_ref
+                reference = self._store_node(node)
+                return MPT._DeleteAction.UPDATED, reference
+
+    def _build_new_node_from_last_branch(
+        self, branches: List[bytes]
+    ) -> Tuple[_DeleteAction, bytes]:
+        """
+        Combine nibble of the only branch left with underlying node and creates new node.
+
+        Parameters
+        ----------
+        branches : list of bytes
+            List of references to the branches.
+
+        Returns
+        -------
+        tuple
+            Tuple of `_DeleteAction` and reference to the new node.
+
+        Raises
+        ------
+        KeyError
+            If there is no branches left.
+
+        """
+
+        # Find the index of the only stored branch.
+        idx = 0
+        for i in range(len(branches)):
+            if len(branches[i]) > 0:
+                idx = i
+                break
+
+        # Path in leaf will contain one nibble (at this step).
+        prefix_nibble = NibblePath([idx], offset=1)
+
+        child = self._get_node(branches[idx])
+
+        path = None
+        node = None
+
+        # Build new node.
+        # If next node is leaf or extension, merge it.
+        # If next node is branch, create an extension node with one nibble in path.
+        if type(child) == Leaf:
+            path = NibblePath.combine(prefix_nibble, child.path)
+            node = Leaf(path, child.data)
+        elif type(child) == Extension:
+            path = NibblePath.combine(prefix_nibble, child.path)
+            node = Extension(path, child.next_ref)
+        elif type(child) == Branch:
+            path = prefix_nibble
+            node = Extension(path, branches[idx])
+
+        reference = self._store_node(node)
+
+        return MPT._DeleteAction.USELESS_BRANCH, (path, reference)
-- 
2.43.0


From 2cd9961a9745c3c23569b0eebaf3811dda64ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:21 +0000
Subject: [PATCH 35/38] fix: file_exists and dir_exists took a name like .//a
 for an absolute one

---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 1132c1f..27a3696 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -236,7 +236,7 @@ class Utils:
         if not isinstance(filename, str):
             raise TypeError("Filename must be a string.")
         if filename.startswith("./"):
-            filename = os.path.join(os.getcwd(), filename[2:])
+            filename = os.path.join(os.getcwd(), filename)
         return os.path.isfile(filename)
 
     @staticmethod
@@ -261,7 +261,7 @@ class Utils:
         if not isinstance(dirname, str):
             raise TypeError("Dirname must be a string.")
         if dirname.startswith("./"):
-            dirname = os.path.join(os.getcwd(), dirname[2:])
+            dirname = os.path.join(os.getcwd(), dirname)
         return os.path.isdir(dirname)
 
     @staticmethod
-- 
2.43.0


From b7377834eb3bcc93f61a20cbc95adaa7d9cc706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:21 +0000
Subject: [PATCH 36/38] fix: rsa_key_valid failed with an IndexError on some
 damaged keys

---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 27a3696..d814d62 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -370,7 +370,7 @@ class Utils:
             # Check if the key is a valid public key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Public key could not be loaded.")
                 return False
@@ -382,7 +382,7 @@ class Utils:
             # Check if the key is a valid private key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Private could not be loaded.")
                 return False
-- 
2.43.0


From 587fcd398663fe020ad5b99f258c588fcc1eb57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 37/38] fix: encoding a trie needed a storage method (values)
 that is not among the documented ones

---
 src/pymt/mpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 523c9b5..a63e894 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -529,7 +529,8 @@ class MPT:
     def encode(self) -> bytes:
         """Encode the trie into rlp."""
         storage_list = [
-            _prepare_reference_for_encoding(node) for node in self._storage.values()
+            _prepare_reference_for_encoding(self._storage[ref])
+            for ref in self._storage.keys()
         ]
         root = self.root_hash() if self.root() is None else self.root()
         content = [root, storage_list, self._secure]
-- 
2.43.0


From 27478f7ae35799d390b7879c84e9df5f037dd5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 38/38] fix: iterating a full trie needed a storage method
 (__iter__) that is not among the documented ones

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9feee4f..3916e30 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -202,7 +202,7 @@ class EMPT(MutableMapping):
 
     def __iter__(self) -> Iterable[bytes]:
         """Return an iterator over the keys in the trie."""
-        return iter(self._data_storage)
+        return iter(self._data_storage.keys())
 
     def __getitem__(self, key: bytes) -> bytes:
         """Wrapper for the get method."""
-- 
2.43.0

