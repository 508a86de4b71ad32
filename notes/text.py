"""What each check specifies, proves and only checks within bounds.  Read by tools_manifest.py (MANIFEST.json,
DESIGN.md) and by the verifier (the bounded stand-ins in the evidence)."""

# property: (what is specified, what is proved, bounded stand-ins [(functions, bound)], why beyond tests)
C01_ASSUMED = " Assumed of the run: every batch process does what the contract of _index_docs says or fails, its transaction taken under the shared lock; temporary directories, the process pool, `rollback`, `detach` and pragmas do not fail; the posting sets put together by the SQL aggregate are their union (the aggregate class is only checked within bounds)."

TEXT = {
"C01": ("A lookup returns the stored posting set of exactly the (field, value) pair asked for, an unknown pair gives the empty set; feature ids and pairs translate both ways.",
        "Index.__getitem__ (both forms of key), lookup_feature, lookup_feature_id, over any table contents. _index_docs: for any corpus, any batch of keys and both positional settings, the rows it adds to its temporary table are exactly the postings of the documents of its own id range (for each field and value the set of documents of the range that carry it, their number, and nothing for a pair no document of the range carries). The temporary table of a batch is modelled with the key (field, value, first_doc_id), which _index_docs is proved to keep. Index.index as a whole, for any corpus that lists each key once, any batch size, any number of workers, batches dispatched and finishing in any order, positions on or off, and a failure at any statement, at any batch or in the corpus: afterwards the feature table holds exactly one feature per field and value that some document carries, with exactly the documents that carry it and their number. Assumed of the run: every batch process does what the contract of _index_docs says or fails, its transaction taken under the shared lock; temporary directories, the process pool, `rollback`, `detach` and pragmas do not fail; the posting sets put together by the SQL aggregate are their union (the aggregate class is only checked within bounds).",
        [("RoaringUnion (the aggregate that merges the batches), the run on real processes and files", "corpora of up to about 40 documents, up to 9 values per field, all batch sizes and worker counts, shuffled batch completion, failing workers")]),
"C02": ("Known pairs keep their id; the content after a run equals a fresh index; a failing run leaves everything as it was.",
        "lookup_feature_id. Index.index as a whole, for any corpus that lists each key once, any batch size, any number of workers, batches dispatched and finishing in any order, positions on or off, and a failure at any statement, at any batch or in the corpus: every feature known before keeps its id, the same features are assigned to the same clusters with the same pins; a run that fails leaves every table and everything committed exactly as it was or, when only the cluster summaries were left to compute, the complete new content with every cluster marked for refreshing; foreign keys are enforced again, no transaction is left open and the temporary files are gone."+C01_ASSUMED,
        [("the run on real processes and files", "re-indexing of generated corpora with a failure injected at every n-th database or worker call")]),
"C03": ("The keys of a query are exactly the keys of its documents, each paired with its own id.",
        "Index.convert_query_to_keys, Index.docs, Index.render_docs_html, Index.render_docs_table (whole queries and samples) over any table contents and any query of stored documents. The corpus is any one that returns the documents of the given keys in their order, contents being a function of the key (K01 proves it of the plain text corpus). Index.index as a whole, for any corpus that lists each key once, any batch size, any number of workers, batches dispatched and finishing in any order, positions on or off, and a failure at any statement, at any batch or in the corpus: the documents are numbered from 0 in the order the corpus lists its keys, and each id has its key."+C01_ASSUMED,
        [("the run on real processes and files", "generated corpora of up to about 40 documents, every key order")]),
"C04": ("Stored positions decode to the documents' value sequences.",
        "_index_docs with positions: for any corpus and any batch, the starts stored for a field are exactly those of the documents of the batch that have the field as a sequence (empty sequences included), in document order without gaps or overlaps, and the positions stored for a value are exactly the places that hold it, documents without the field adding none. Without positions, nothing is stored. Index.index as a whole, for any corpus that lists each key once, any batch size, any number of workers, batches dispatched and finishing in any order, positions on or off, and a failure at any statement, at any batch or in the corpus: each batch has its own partition of consecutive ids, each partition holds exactly the boundaries of its documents, and the positions of a feature are exactly the places of the partition that hold its value: every place has exactly one feature."+C01_ASSUMED,
        [("the run on real processes and files", "generated corpora with sequence fields, empty sequences, all batch sizes")]),
"M01": ("After every public operation: each listed cluster has features; its document set is the union, its count the size, its weight the sum of counts, its feature count the number of its features; no mark is left.",
        "_union_query, _update_changed_clusters (the housekeeping, for any set of marks), the triggers as the schema text gives them, atomic, every public edit both as a function body and as called through its decorators, initialise_clusters, cluster_docs, Index.index (re-indexing as an operation, see C01).",
        [("refine_clusters as an operation of a history", "random histories of up to 8 operations on generated models")]),
"M02": ("Each edit changes exactly the assignments, pins and counts it names (frame conditions over every other row).",
        "delete_features, delete_clusters, merge_clusters, create_cluster_from_features, pin_features, pin_clusters, next_cluster_id, _update_cluster_feature, _update_changed_clusters; bodies and decorated calls.",
        []),
"M03": ("The assignment is a partition of exactly the eligible features, sizes differ by at most one, counts equal the index counts.",
        "initialise_clusters (body and as called).",
        []),
"M04": ("Returning commits everything at the outermost level only, raising restores everything at any depth, nesting level and marks are restored.",
        "atomic's wrapper around an arbitrary method at an arbitrary nesting depth and failure point, and all public edits initialise_clusters and Index.index as called (see C02).",
        [("refine_clusters as an operation; nesting of real operations with interrupts", "single operations and nests of up to three, an interrupt or error injected at every n-th call")]),
"M05": ("Refinement assigns the same features, each once; unselected clusters are untouched; new ids are fresh.",
        "cluster_ids, next_cluster_id, _update_cluster_feature (writes exactly the assignment it is given).",
        [("refine_clusters, _refine_feature_groups, _find_best_moves, _score_proposed_moves", "generated models of up to about 30 features, random settings, pins and targets")]),
"M06": ("Pinned features and clusters keep exactly their places; refinement returns whatever is pinned.",
        "pinned_cluster_ids.",
        [("refine_clusters, _refine_feature_groups", "generated models, random and complete pinning, random settings and targets")]),
"M07": ("The objective and every removal and addition score equal their defining formulas within the probe.",
        "measure_feature_contribution_to_cluster for any groups, probe, and documents (exact sums of cardinalities, including the penalty cases); Index.__getitem__.",
        [("_score_proposed_moves", "generated models; all best-move heaps compared with the brute-force scores")]),
"Q01": ("The union is exact and the bit slices encode, for each document, the number of listed features it matches.",
        "compute_bitslice (for any number of features and carries), union_bitslice, cluster_query, cluster_features.",
        [("weight_bitslice", "generated weights and sets")]),
"Q02": ("The result of bstm is upward closed, has at least k documents, and fewer than k strictly above the weakest.",
        "bstm for any number of slices and any k.",
        [("weight_bitslice, Index-level ranking", "generated slices, k from 0 to beyond the size")]),
"Q03": ("Clusters are those that overlap the query, by descending similarity, with exact similarities.",
        "_calculate_query_cluster_cooccurrence, cluster_docs, cluster_features.",
        [("_pivot_cluster_features_by_query_jaccard, pivot_clusters_by_query", "generated models and queries, all k")]),
"Q04": ("One entry per value of the field in sorted order with its count; per query one aligned exact count per value.",
        "iter_field_docs, intersect_queries_with_field.",
        []),
"Q05": ("One node per cluster with its count, an edge exactly between overlapping clusters with their Jaccard similarity.",
        "create_cluster_cooccurrence_graph, _calculate_query_cluster_cooccurrence, top_cluster_features, cluster_docs, cluster_features.",
        []),
"Q06": ("Each wanted cluster's sample lies in its documents, is disjoint from the others, no larger than asked for, and short only where the rest went to clusters that are no larger; the labels are exactly each cluster's sampled documents.",
        "structured_doc_sample (all clusters and any list of clusters, any sample size, sampling off), sample_bitmap, cluster_docs, cluster_ids, top_cluster_features. The random generator is any function that draws distinct positions.",
        []),
"P01": ("The window holds exactly the positions of the same document within the window size; collocation counts are the sizes of the features' positions inside it.",
        "expand_positions_window, _union_position_query, _get_partition_positions, _get_partition_header, _field_partitions, _count_collocations, count_collocations.",
        []),
"P02": ("Passages are true and complete.",
        "the position and partition lookups a passage search starts from.",
        [("_score_passages_dnf, score_passages_dnf", "generated positional corpora, one to three clauses, windows from 1 up, two fields")]),
"P03": ("For every matching, sampled document and every feature asked for, extract_matching_feature_windows gives exactly the slices of the feature's field around each occurrence, clipped at the field's ends, in the order of occurrence and of the features; concordances gives the same windows as text, one row per occurrence, in the same order, keyed by document.",
        "extract_matching_feature_windows and concordances, for feature ids and (field, value) pairs, with and without sampling, any window sizes from 0 up. Assumed: the corpus turns a document into fields deterministically (any class satisfying the corpus protocol), the values of a field are text when they are joined.",
        [("extract_matching_feature_windows, concordances on the real SQLite-backed index and on lists mixing ids and pairs", "generated corpora with repeated values, windows from 0 up")]),
"K01": ("The document table after a replacement is exactly the given texts in order; a failure at any statement or text keeps the old table; retrieval pairs each key with its own text; listing gives every key once.",
        "PlainTextSqliteCorpus.replace_docs (with and without an earlier table, a failure at any statement and at any text), docs (given keys and all), keys, render_docs_html, render_docs_table. The connection's row factory (dicts by column name) is assumed.",
        [("reopening the file and concurrent use", "generated texts, an error raised at every element, every failing statement, on a real file")]),
"S01": ("For every stored version number and every content: an unversioned database with any object in it and an unknown version raise MigrationError with nothing written; a current index is opened without a write; versions 4 to 9 end at the current schema in one transaction, with every document key, feature, posting set, position row and cluster assignment (and, where the version has them, pins) as they were, no cluster left marked and every summary exact; whichever statement fails, what is stored is the old database or the whole migration.",
        "_index_schema.migrate and Index.__init__, one unit per supported version and for empty, current, unrelated and unknown databases. The statements of the schema script and of the migrations are executed in the SQL model (dv/migrate.py) one by one, each of them may fail. Stated in the contract: the columns and tables each older version had (the history of the schema), references and summaries hold in the old index as its version kept them. Not specified: the field summary a migration recomputes, pragmas of the connection.",
        [("the real file format, triggers of old versions, reopening", "every older schema version with generated contents, foreign databases, future versions")]),
"W01": ("Every function that a page fetched with GET can reach sends the database only reading statements; every action accepts POST only and calls exactly the operation it is named for, once, with exactly the submitted ids, flags and numbers.",
        "Frame conditions (dv/frames.py): the reading frame of every exposed handler that is not POST-only and of every function reachable from it (index objects followed through self, request.index, parameters and locals; statements are constants of the source). Contracts: the nine actions as served (the ensure_list tool of the handler, then the handler), for an absent, single or repeated list parameter and any subset of the other parameters. Assumed: CherryPy's allow tool rejects other methods, its dispatcher hands the request parameters to the handler and runs before_handler tools first; parameters that are not declared as lists are submitted at most once; opening the index for the request is S01.",
        [("the running handlers behind the real dispatcher", "every GET and POST address with generated parameters, full database dumps before and after")]),
}
