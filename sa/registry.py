"""Which module decides which property, and what its evidence says about the method."""
COMMON = [
    "the MIR that rustc nightly produces for the crate's library target (default features in the quick tier) is the program that ships",
    "the models of std, rabuf 0.1.20 and vu64 0.1.11 used at their call sites: a rabuf write/flush/sync either fails with Err or does what its documentation says, sync_all/sync_data flush the buffers first",
    "user supplied DbMapKeyType/HashValue implementations do not reach back into the map",
]

PROPS = {
    "P01": {"module": "rules_sync", "technique": "path-sensitive typestate analysis over MIR (whole-program inlining, symbolic places)",
            "explanation": "Symbolic-place dataflow over the MIR of every mutating public operation and of sync_all/sync_data/flush, joined over all paths including every error return: (1) each write of a file and each dirty node-cache insertion happens with the dirty flag known true, (2) nothing but sync clears it, (3) a successful sync on a dirty map has written back the node cache and synced all four files, in that order, before clearing it, (4) the write-back loop visits each cache entry and clears its mark only after a successful write.",
            "assumptions": ["a recursive tree function that returns may have changed files; changes made after such a call count as covered by the dirty flag set inside it"]},
    "P03": {"module": "rules_sync", "technique": "path-sensitive typestate analysis over MIR (whole-program inlining, symbolic places)",
            "explanation": "The same analysis applied to flush and to the Drop of the map object: on every error-free path from a dirty map the node cache is written back and then each file's buffer is flushed; plus the dirty-flag invariant that makes 'not dirty' mean 'nothing pending'.",
            "assumptions": ["rabuf flushes on an explicit flush; the process ends normally (no abort between drop and exit)"]},
}
PROPS["P02"] = {"module": "rules_err", "technique": "typestate and loop-completeness analysis over MIR with resolved callees",
    "explanation": "On FileDb::sync_all/sync_data, all paths: a path returning Ok has exhausted a walk over each collection of open maps, and in each walk step called the map's own sync (same or stronger) with success; each map handed out by the db_map functions was found in or inserted into such a collection; the map's own sync is checked by the P01 typestate."}
PROPS["P04"] = {"module": "rules_err", "technique": "error-propagation typestate over MIR (all paths, whole-program inlining)",
    "explanation": "Every file operation (rabuf, std::fs) forks into success and failure; the typestate remembers a failure, and no path of any public operation (or recursive tree function) may reach an Ok return afterwards. Panics are allowed ends of the path."}
PROPS["P17"] = {"module": "rules_err", "technique": "effect analysis over MIR (whole-program inlining, resolved callees)",
    "explanation": "Effect analysis of every public reading operation, iterator step and statistics function: no path writes a file outside the node cache's write-back, inserts a dirty node into the cache, drops one from it, or edits a node's fields."}
PROPS["P20"] = {"module": "rules_own", "technique": "borrow-state (typestate) analysis of RefCell guards over MIR",
    "explanation": "Every RefCell borrow/borrow_mut in every public operation (file and memory databases) is a guard acquired at the call and released where MIR drops it; no path acquires one that conflicts with a live guard on the same cell, recursive calls and callbacks included.",
    "assumptions": ["different index nodes are different cells unless the very same handle is passed on"]}
PROPS["P25"] = {"module": "rules_own", "technique": "type-system query (rustc trait solver) plus compile-fail witnesses with compiling twins",
    "explanation": "For each public type that reaches Rc/RefCell state the trait solver is asked whether any instance could be Send or Sync; witness crates that require Send of each handle must fail with E0277 while twins build."}

PROPS["P19"] = {"module": "rules_db", "technique": "provenance and path-fact analysis over MIR (whole-program inlining)",
    "explanation": "On every path of every db_map function: files are opened and a map is inserted only under facts that no collection (of any key kind) has that name; the key of lookup, insertion and file names is the name argument; what is returned was found in or put into the collection of its kind."}
PROPS["P21"] = {"module": "rules_db", "technique": "path-fact and constant-position dataflow over MIR, constant evaluation",
    "explanation": "For each function that opens one of the four files, all paths: open options never truncate; each write to the file happens under the fact that the file length was zero; every successful open of a non-empty file has compared both signatures, read from where they are written, with the expected constants; the header of a new file satisfies the checks of a later open; the signature constants and file names are pairwise different."}
PROPS["P24"] = {"module": "rules_db", "technique": "path-sensitive interval facts over MIR",
    "explanation": "For each function that opens a file, each path is kept apart by what it knows about the buffer parameters; at each buffer constructor the number of chunks is bounded from below by those facts, and constructor, payload and parameter field must belong together.",
    "assumptions": ["rabuf's automatic buffer has at least 32 KiB, plus one chunk, for a per-mille size below 1000, and as many chunks as the file needs from 1000 on"]}
PROPS["P09"] = {"module": "rules_layout", "technique": "symbolic file-position and record-layout dataflow over MIR (writer/reader field agreement)",
    "explanation": "For every operation on the four files, every access is given its place (header field, free list head, hash slot, or a linear distance from the start of a record whose lengths are named by where they are stored in the record) and its width, on all paths; readers' fields are compared with the fields that all writers write, per kind of record (in use, free), and returned members with the members they were written from."}
PROPS["P08"] = {"module": "rules_lists", "technique": "relational typestate dataflow over MIR (which record holds the link to which)",
    "explanation": "For every operation that uses the free lists, on all paths and loop rounds: at each write of a list head or a link, the relation 'the link that leads to y is kept at x' (established by reads, kept over joins for variables that move together, destroyed by writes) shows that the write either puts a record whose link is the unchanged old head, or takes off exactly the record behind; payload is written only to places appended or taken off."}
PROPS["P10"] = {"module": "rules_lists", "technique": "relational typestate dataflow over MIR (reserved sizes, rounding facts) with constant evaluation of the size tables",
    "explanation": "For every operation that writes records or nodes, on all paths: at each write of a record or node, what is known about its place (a size read from that place, an append followed by zero fill to the end, a size known to be at least the rounded encoded size) must cover the bytes the encoding writes, and the size written must be the size of that place; the rounding functions are evaluated over their whole piecewise-linear shape from the size tables each file opens with.",
    "assumptions": ["a node that was changed but not yet handed to the node writer is not written back by a cache clear in between (the node cache holds more nodes than one operation touches on a path)"]}
PROPS["P11"] = {"module": "rules_lists", "technique": "constant propagation and interval analysis over MIR of the size-class tables and the functions on them",
    "explanation": "The tables that each file opens with are found by constant propagation; the rounding, list-choosing and large-size functions are analysed over those tables by interval analysis of the size, giving their exact pieces, which are compared with each other (each rounded size has a list of its own class; a list taken from without comparing sizes holds no smaller record) and with the header fields that the file operations access."}

_REC = "The three map operations and the recursive tree functions are analysed on all paths with the record, value and hash files inlined and the index operations cut: which place each record field was read from or written to, which places were taken, appended or given back, which bytes compared equal to the key, and what the hash slot holds are relations that are carried through joins and loop rounds. "
PROPS["P07"] = {"module": "rules_rec", "technique": "relational typestate dataflow over MIR (ownership of records)",
    "explanation": _REC + "Rules: no use after give-back, no second give-back, only the value record this key points to is touched; on every success exit no live key record points to a freed value record, a freed key record took its value record with it or lives on in a new one, and each new record is pointed to.",
    "assumptions": ["two places are the same record only if they are the same quantity or compared equal on the path", "operations of the index files do not touch the key, value and hash files (checked by the call graph)"]}
PROPS["P12"] = {"module": "rules_rec", "technique": "relational typestate dataflow over MIR (compared-equal facts)",
    "explanation": _REC + "Rules: the value place of a key record is read, and the record rewritten or freed, only where the bytes of that very record compared Equal to the key of the operation; a slot's record is read only where the slot was found not empty; a public lookup answers 'absent' only with the result of the tree search.",
    "assumptions": ["DbMapKeyType::cmp_u8 answers Equal only for equal keys (P16)"]}
PROPS["P13"] = {"module": "rules_rec", "technique": "relational typestate dataflow over MIR (hash slot contents), structural comparison of slot places",
    "explanation": _REC + "Rules: a new key record is in the slot picked by the hash of its own key on every success exit; a key record is freed only after that slot was cleared, or the slot holds its new place at the end; every access to a slot is placed by the same expression of one key's hash.",
    "assumptions": ["hash_value is a function of the key's bytes (P16)"]}
PROPS["P18"] = {"module": "rules_rec", "technique": "relational value-provenance dataflow over MIR",
    "explanation": _REC + "Rules: put succeeds only where the value record that the key's record points to holds the given bytes and their length; get and delete return bytes read from the value record of the compared key, or the tree search's result; key and value are handed on unchanged, also by the wrappers.",
    "assumptions": ["the bytes of a key and the key rebuilt from its stored bytes are the same (P16)"]}
PROPS["P23"] = {"module": "rules_misc", "technique": "typestate dataflow over MIR (file positions) and effect scan of file-opening calls",
    "explanation": "Every way on which the length of a database file is set is followed back to where the length came from: it must be the end of that very file as this operation found it when it looked for room to append (ways with a place from a free list are kept apart), or a constant on a way where the file was found empty. Opening with truncation, creating over, removing and renaming files are not allowed anywhere. Every call site of set_len in the crate must have been met.",
    "assumptions": ["the free-list functions only read and write list heads and links (their roles are established by P08's analysis)"]}
PROPS["P22"] = {"module": "rules_misc", "technique": "interval dataflow over MIR (lengths at each change), call-graph closure, piecewise analysis of the rounding function",
    "explanation": "On every path of put the path condition must bound the lengths of the key bytes and of the value before the first write to any file or the first call that can write; a path with a length above the bound must end in an error with nothing written. With the bounds found, the record sizes asked for by the record-writing functions (a constant plus the length) and every intermediate of their rounding up are evaluated and must fit in 32 bits. A closure over the call graph shows that records are written only on behalf of the guarded put.",
    "assumptions": ["the length of a key's bytes is the same each time it is asked for within one put (P16)"]}
PROPS["P15"] = {"module": "rules_bulk", "technique": "sequence-provenance dataflow over MIR (loops as maps over lists, sort stability)",
    "explanation": "Every bulk operation is analysed on all paths with the single operations cut: each loop or iterator chain is followed back to the given list (copying, numbering, sorting, reversing, popping and mapping keep 'one entry for each element'; everything else loses it), and each round of a loop is counted: exactly one single operation with the key (and value) of that round's element, exactly one entry pushed. From the sorts (comparison function, stability) it follows whether elements with the same key keep their order; the answers must be sorted back by the element's number, or never have left its order.",
    "assumptions": ["the order of the caller's key type is total and equal for keys that convert to equal keys", "P18.forward: the single operations behind get, put and delete are get_kt, put_kt and del_kt"]}
PROPS["P16"] = {"module": "rules_key", "technique": "symbolic summaries of key-type methods by dataflow over MIR (derived impls included)",
    "explanation": "Every implementation that a key type has (storing, rebuilding, comparing with stored bytes, equality, order, hash, clone, every conversion to and from it, derived ones included) is summarised from its MIR on all paths, and each summary is compared with the one function of the key's bytes that it must be. The same is done for looking up, storing and removing in the maps in memory.",
    "assumptions": ["the standard library's comparison, hashing and copying of byte vectors and slices are what they are documented to be"]}
_TREE = "put, delete and the recursive functions behind them are analysed on all paths with the three functions that read, write and free an index node taken as their contracts (what is read at a place is what was last written there; a written node may end at a new place and its old one is gone) and the recursive calls taken as the contract that is proved of them. Every node is a list of keys and a list of children, kept as runs of the lists they came from under the path's linear facts on indexes and lengths. "
PROPS["P05"] = {"module": "rules_tree", "technique": "relational typestate dataflow over MIR (node contents and places), inductive contracts for recursion",
    "explanation": _TREE + "Rules: at each success exit every node's lists are those last handed to the writer, with its dirty mark set; no child slot, root place, read, write or free uses a place that its node has left or that was given back.",
    "assumptions": ["the node reader, writer and the function that frees a node do what P09, P10 and P14 establish of them", "each key record is linked from one entry of the tree"]}
PROPS["P06"] = {"module": "rules_tree", "technique": "symbolic sequence dataflow over MIR (in-order key and child runs), inductive contracts for recursion",
    "explanation": _TREE + "Rules: each node handed to the writer has one more child than keys; at each success exit the in-order sequences of keys and children, with all touched nodes expanded, equal those at entry but for one key inserted with an empty child, replaced, or removed with an empty child, or one subtree replaced by the recursive result.",
    "assumptions": ["an index node without keys is an empty root", "indexes given to checked list operations are in range (otherwise the operation panics)"]}
PROPS["P14"] = {"module": "rules_cache", "technique": "must-typestate dataflow over MIR (cache written back, place absent, place dropped), contracts of the cache's functions",
    "explanation": "Three layers. The functions of the cache (looking up, entering, removing, writing back, and its index) are each analysed on all paths: what is answered is what was last entered under that place, the entry and the index change together, an entry once changed is marked to be written back, a removed entry never is. On top of those contracts the functions that read, write and free one index node are analysed (a node is entered under the place it was written to, its old place leaves the cache before it is given back). On top of those the map's operations: every read of the index file at a node's place happens with the cache written back and nothing entered since, or with that place known to be absent from the cache. The root place in memory and the one written in the header are compared on every success exit.",
    "assumptions": ["a node that is changed is handed to the node writer before the cache is emptied (P05: every changed node is written before the operation ends)", "std's hash map with the crate's deterministic hasher is a map"]}
PROPS["P27"] = {"module": "rules_bounds", "technique": "linear-inequality dataflow over MIR (unchecked index in bounds), loop invariants by candidate elimination, contracts for search and recursion",
    "explanation": "Every unchecked element access, raw-pointer step and unchecked slice range in the crate is enumerated from the compiled program, and every call of a function with one is accounted for. On every path to it, index < length must follow (by elimination over linear inequalities) from the guards passed, the lengths the lists were built with, the contract of the search (found: below the length, not found: at most the length, itself proved for the search function's loop), and the shape of a node (children one more than keys, decided under P05/P06). Positions that the node cache's index answers are positions in its entry list because that list only grows or is emptied together with the index.",
    "assumptions": ["a node that an operation reaches through a non-zero link has at least one key", "indexes are unsigned whole numbers that do not wrap", "the fixed-width copies of list contents to and from bytes (reads of u64 lists as byte slices) are not list accesses and are covered by the compiler's layout of u64"]}
PROPS["P28"] = {"module": "rules_cache", "technique": "ownership dataflow over MIR with symbolic tree contents (every node in hand is linked or given back), contracts of the node reader, writer and freer",
    "explanation": "Put, delete and their recursive steps are followed on all paths with the contents of every node they read or store kept as symbolic lists. At each success exit the tree reached from the answered root (or from the header) is unfolded: each node that was read or stored on the way must be met in it, or its place must have been given back; the node writer gives the former place back whenever it answers another one and uses every place it takes off a free list, and the node freer puts the place on a list.",
    "assumptions": ["the free lists keep what they are given (P08)", "a node that an operation never read keeps its link (P05.slot)"]}
PROPS["P29"] = {"module": "rules_find", "technique": "relational loop-invariant dataflow over MIR (which entries compared smaller, equal, larger), linear facts on indexes",
    "explanation": "Each search of the keys of one node (by a list of keys and straight from the index file) is followed on all paths and through its loop. For each comparison of the key searched for with the key of a record, the entry of the node that the record was read from is known; facts 'the key before entry e compared smaller, or e is 0', 'the key at entry e compared larger, or e is the number of keys' and 'record x compared equal' are kept through loop joins for every variable for which they hold on each way in. Rules: an answer 'found' names a record or entry that compared equal; an answer 'not there' names the entry, or the child at the entry, for which both facts meet, and the entry for the end of the search in a leaf is one where they meet.",
    "assumptions": ["the keys of a node are sorted (P05, P06 and this property keep them so)", "cmp_u8 is the order of the key bytes (P16)", "the table of keys and children starts where P09 found it"]}

# feature configurations that the thorough tier adds (those in which the property's code exists and the analysis fits)
CONFIGS = {
    "P01": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P02": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P03": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P04": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P05": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P06": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P07": ("lru", "small", "nocache", "node32", "nostraight"),
    "P08": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P10": ("lru", "small", "nocache", "nohtx"),
    "P11": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P12": ("lru", "small", "nocache", "node32", "nostraight"),
    "P13": ("lru", "small", "nocache", "node32", "nostraight"),
    "P14": ("small", "nohtx", "node32"),
    "P28": ("small", "nohtx", "node32"),
    "P29": ("small", "nocache", "nohtx", "node32"),
    "P15": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P16": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P17": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P18": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P19": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P21": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P22": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P23": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P24": ("lru", "small", "nocache", "nohtx", "node32", "nostraight"),
    "P27": ("small", "nocache", "nohtx", "node32"),
}
for _p, _c in CONFIGS.items():
    if _p in PROPS:
        PROPS[_p]["configs"] = _c
