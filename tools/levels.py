P = 'proof'
X = 'exploration'
B = ' Bounded stand-in (executable contracts, never counted as proved): '
LEVEL = {
 'C01': (P, 'IoU kernels and the loaders that attach IoUs to pairs are discharged for all inputs; polygon areas are assumed from shapely.'),
 'C02': (P, 'ranking kernels, rank_table, the external sort, counts and the evaluator over any split into tables are discharged.'),
 'C03': (P, 'ratios and the evaluator over any split into tables are discharged (floats as reals).'),
 'C04': (P, 'curve, interpolation, average precision and the evaluator over any split into tables are discharged (floats as reals).'),
 'C05': (P, 'greedy matching, pair classification, matrix and evaluator are discharged for all inputs.'),
 'C06': (P, 'matching, identifier mapping and per-datum examples are discharged.' + B + 'unpacking of the confusion matrix with examples.'),
 'C07': (P, 'rows written by the loader for any datum and the label map are discharged.'),
 'C08': (P, 'counts, evaluator and loader are discharged for all inputs.'),
 'C09': (P, 'ratios and evaluator are discharged (floats as reals).'),
 'C10': (P, 'compute_rocauc, its accumulation over any number of tables, per-label counts and unpacking are discharged.' + B + 'construction of the curve points from the sorted scores.'),
 'C11': (P, 'pair classification, matrix, evaluator, mapping and per-datum examples are discharged.' + B + 'unpacking of the confusion matrix with examples.'),
 'C12': (P, 'pixel counts, overlap resolution (induction over masks), loader and evaluator sums are discharged.'),
 'C13': (P, 'metrics from the matrix and their unpacking are discharged (floats as reals).'),
 'C14': (P, 'every write, flush and close from any writer state and every iterator of both readers are discharged; parquet itself is assumed.'),
 'C15': (P, 'sort and the heap merge (loop invariants; any number of sources, batches and rows; key lists of up to three columns), sort_by, batch iterators and counts are discharged; termination of the merge is not.' + B + 'longer key lists.'),
 'C16': (P, 'paginate_index and count_rows are discharged for any tables, offset, limit and filter.'),
 'C17': (P, 'every evaluator result is proved to be a function of the set of rows for an arbitrary split into tables.' + B + 'end-to-end comparison of the two storages.'),
 'C18': (P, 'filtered evaluators (arbitrary row predicate) and Evaluator.filter of the three tasks are discharged.' + B + 're-ranking after filter.'),
 'C19': (P, 'every LLM-guided score and generation step is discharged with the LLM as an arbitrary function; ROUGE/BLEU come from third-party packages (bounded).'),
 'C20': (P, 'validators, JSON extraction, retry bound and error metrics are discharged for arbitrary responses.'),
 'C21': (P, 'annotation constructors accept exactly the valid inputs, cache creation, loading and deletion paths, empty finalisation: discharged.' + B + 'argument checks end to end.'),
 'C22': (P, 'every unpack function and evaluator: one metric per combination with the parameters of its own index, discharged.' + B + 'confusion matrix with examples.'),
 'C23': (P, 'counts, info and label extraction of the three tasks, filtered and not, are discharged.'),
}
