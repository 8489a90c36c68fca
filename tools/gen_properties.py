"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
OD='src/valor_lite/object_detection/'; CL='src/valor_lite/classification/'
SS='src/valor_lite/semantic_segmentation/'; TG='src/valor_lite/text_generation/'; CA='src/valor_lite/cache/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=state
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

p('C01','Detection IoU is exact intersection over union',
 'For every pair of bounding boxes, bitmasks or polygons in one detection, the IoU that drives the evaluation is the area of the intersection divided by the area of the union, and 0 when the union is empty; it lies in [0, 1], does not depend on which of the two is the ground truth, is 1 for identical non-empty shapes and 0 for disjoint ones. Each IoU is attributed to the ground truth and prediction it was computed from.',
 ['inputs'],'all shapes, positions, sizes and any number of ground truths and predictions per datum',
 'Tests compare a few hand-picked shapes; the formula must hold for every geometry and every pair position.',
 [OD+'computation.py',OD+'loader.py'],
 [('compute_bbox_iou / compute_bitmask_iou / compute_polygon_iou',OD+'computation.py'),('add_bounding_boxes / add_polygons / add_bitmasks',OD+'loader.py')],
 ['Evaluator.compute_precision_recall','Evaluator.compute_confusion_matrix'])
p('C02','Detection counts follow score-ranked one-claim-per-ground-truth matching',
 'A prediction is scored by those of its labels that match an overlapping ground truth, or by all its labels when none does, and each scored label is compared with the single ground truth it overlaps most (of the same label when there is one). At every IoU threshold in (0, 1] and score threshold, a scored label with a score above zero and at or above the score threshold is a true positive exactly when its ground truth has the same label, the IoU reaches the IoU threshold and no higher-ranked prediction (by score, then IoU, then order added) already claimed that ground truth at that IoU threshold; otherwise it is a false positive. For each label TP plus FN is the number of ground truths and TP plus FP the number of qualifying scored labels.',
 ['inputs','configurations'],'all sets of annotations, scores (including ties and zeros), labels, threshold lists in any order, and cache chunkings',
 'The assignment depends on the joint order of all scores and overlaps; tests sample a handful of arrangements.',
 [OD+'computation.py',OD+'evaluator.py',OD+'shared.py'],
 [('rank_pairs, calculate_ranking_boundaries, rank_table, compute_counts',OD+'computation.py'),('Evaluator.compute_precision_recall',OD+'evaluator.py'),('extract_groundtruth_count_per_label',OD+'shared.py')],
 ['Counts metrics of Evaluator.compute_precision_recall'])
p('C03','Detection precision, recall, F1 and average recall follow from the counts',
 'Precision is TP/(TP+FP), recall TP/(TP+FN) and F1 their harmonic mean for each label, IoU and score threshold, each 0 when its denominator is 0. AR is the mean recall over the IoU thresholds, mAR its mean over labels, and the values averaged over score thresholds are the means of those; all lie in [0, 1].',
 ['inputs','configurations'],'all counts, number of labels and threshold lists',
 'Tests check fixed datasets; the formulas must hold for all counts including empty denominators.',
 [OD+'computation.py',OD+'utilities.py'],
 [('compute_precision_recall_f1, compute_average_recall',OD+'computation.py'),('unpack_precision_recall_into_metric_lists',OD+'utilities.py')],
 ['Precision, Recall, F1, AR, mAR metrics'])
p('C04','Detection AP is the 101-point interpolated average precision',
 'For each label and IoU threshold the precision-recall curve holds, at each of the 101 recall points, the highest precision (and the highest score) reached at that recall or beyond along the score-ranked predictions of that label, and AP is the mean of the curve; precision after k predictions is the true positives so far over k. mAP is the mean of AP over labels and the IoU-averaged variants are means over the IoU thresholds; curves never increase and all values lie in [0, 1].',
 ['inputs','configurations'],'all rankings, numbers of ground truths, IoU threshold lists and chunkings of the ranked data',
 'A curve is a running computation over the whole ranking; tests pin a few datasets.',
 [OD+'computation.py',OD+'evaluator.py'],
 [('compute_counts (running counts and curve), compute_average_precision',OD+'computation.py'),('Evaluator.compute_precision_recall',OD+'evaluator.py')],
 ['AP, mAP, PrecisionRecallCurve metrics'])
p('C05','Detection confusion matrix is a one-to-one matching that loses nothing',
 'Within a datum ground truths and predictions are paired greedily, one to one, in descending order of score then IoU (ties in the order added); a pair is matched at a threshold when it overlaps, its IoU reaches the IoU threshold and its score is above zero and reaches the score threshold. Each matched pair is counted in the cell of its two labels, every ground truth that is not in a matched pair is counted once as unmatched, and every prediction label whose score qualifies and whose prediction is not in a matched pair is counted once as unmatched. The result at one threshold does not depend on which other thresholds are requested.',
 ['inputs','configurations'],'all annotations, scores, labels, threshold lists and chunkings',
 'Greedy matching depends on the global order of pairs; tests use small fixed scenes.',
 [OD+'computation.py',OD+'evaluator.py'],
 [('mask_pairs_greedily, compute_pair_classifications, compute_confusion_matrix',OD+'computation.py'),('Evaluator.compute_confusion_matrix',OD+'evaluator.py')],
 ['Evaluator.compute_confusion_matrix'])
p('C06','Detection examples name exactly the annotations behind the confusion matrix',
 'The confusion matrix with examples has the same counts as the plain confusion matrix, every count equals the number of its examples, and each example names the user\'s own datum, ground truth and prediction identifiers of annotations with those labels. Per-datum examples list as true positives the matched same-label pairs, as false positives and false negatives the annotations that are mismatched or unmatched at that threshold, with one entry per datum and threshold pair.',
 ['inputs','configurations'],'all annotations, identifiers, thresholds and chunkings',
 'The index-to-identifier translation must be right for every row layout; tests see a few.',
 [OD+'utilities.py',OD+'evaluator.py'],
 [('create_mapping, unpack_examples, unpack_confusion_matrix_with_examples',OD+'utilities.py'),('compute_examples, compute_confusion_matrix_with_examples',OD+'evaluator.py')],
 ['Evaluator.compute_examples','Evaluator.compute_confusion_matrix_with_examples'])
p('C07','Detection ingestion keeps every annotation exactly once',
 'Every ground truth and every prediction label added through the loader is represented in the evaluation under its own identifier, label, score and metadata, whether or not it overlaps anything, and distinct annotations are never merged even when identifiers or labels repeat across datums. Only pairs within the same datum are compared, and user metadata never replaces a built-in field.',
 ['inputs','histories'],'all sequences of add calls, detections with or without ground truths or predictions, repeated labels and identifiers, and metadata',
 'Needs all combinations of empty sides, overlaps and repeated ids over any number of calls.',
 [OD+'loader.py'],
 [('Loader._add_data, Loader._add_label',OD+'loader.py')],
 ['Evaluator.get_info','Evaluator.compute_examples','Counts metrics'])
p('C08','Classification counts partition the datums for each label and threshold',
 'At each score threshold a predicted label counts as positive when its score is above zero, reaches the threshold and, under hardmax, is its datum\'s first highest-scoring prediction. For each label TP counts datums of that label with a positive prediction of it, FP counts positive predictions of it on datums of another label, FN counts datums of that label on which it was predicted but not positive or on which another label is positive and TN counts datums of another label on which it was predicted but not positive; the result at a threshold does not depend on other thresholds.',
 ['inputs','configurations'],'all score vectors (ties, zeros), label sets, threshold lists, hardmax on or off, and chunkings',
 'Tests sample a few score vectors.',
 [CL+'computation.py',CL+'evaluator.py',CL+'loader.py'],
 [('compute_counts',CL+'computation.py'),('compute_precision_recall',CL+'evaluator.py'),('Loader.add_data',CL+'loader.py')],
 ['Counts metrics of Evaluator.compute_precision_recall'])
p('C09','Classification precision, recall, F1 and accuracy follow from the counts',
 'Precision is TP/(TP+FP), recall TP/(TP+FN), F1 their harmonic mean, each 0 when undefined, and accuracy is the total of TP over labels divided by the number of datums evaluated; all lie in [0, 1]. When a datum filter is given, both counts and the number of datums refer to the filtered datums.',
 ['inputs','configurations'],'all counts, labels, thresholds and datum filters',
 'Formulas must hold for all counts; tests check fixed data.',
 [CL+'computation.py',CL+'evaluator.py'],
 [('compute_precision, compute_recall, compute_f1_score, compute_accuracy',CL+'computation.py'),('compute_precision_recall',CL+'evaluator.py')],
 ['Evaluator.compute_precision_recall'])
p('C10','ROCAUC equals the probability that a positive outscores a negative',
 'When every datum scores every label once, the ROCAUC of a label is the fraction of (datum of that label, datum of another label) pairs in which the first gives the label a higher score, ties counting one half, and 0 when there are no such pairs; mROCAUC is the mean over labels. The value depends only on the order of the scores and not on how the data is batched or stored, and lies in [0, 1].',
 ['inputs','configurations'],'all score matrices including ties and zeros, and all batch and file sizes',
 'The curve is assembled incrementally over chunks; tests use few chunkings and hardly any ties.',
 [CL+'computation.py',CL+'evaluator.py',CL+'shared.py'],
 [('compute_rocauc',CL+'computation.py'),('Builder._create_rocauc_intermediate, Evaluator.compute_rocauc',CL+'evaluator.py')],
 ['Evaluator.compute_rocauc'])
p('C11','Classification confusion matrix and examples account for every datum',
 'At each score threshold the confusion matrix cell (g, p) counts the datums of label g on which p is positive, and a datum with no positive prediction is counted once as an unmatched ground truth of its label. Per-datum examples and the confusion matrix with examples report exactly those datums under the user\'s identifiers, with counts equal to the plain matrix and the score of the prediction; results at one threshold do not depend on the other thresholds requested or on their order.',
 ['inputs','configurations'],'all score vectors, labels, threshold lists in any order, hardmax on or off, and chunkings',
 'Tests request thresholds in ascending order on fixed data.',
 [CL+'computation.py',CL+'utilities.py',CL+'evaluator.py'],
 [('compute_pair_classifications, compute_confusion_matrix',CL+'computation.py'),('unpack_examples, unpack_confusion_matrix_with_examples',CL+'utilities.py')],
 ['compute_confusion_matrix','compute_examples','compute_confusion_matrix_with_examples'])
p('C12','Segmentation counts every pixel exactly once',
 'For each segmentation every pixel is counted exactly once, under the ground truth label (or none) and predicted label (or none) that cover it; where masks on the same side overlap, the earliest mask in the list keeps the pixel and a warning is issued. Pixel counts reported for the evaluator equal the sums of image sizes, labelled ground truth pixels and labelled predicted pixels.',
 ['inputs','histories'],'all masks, including empty, overlapping and repeated labels, any number of labels and datums, and labels that first appear late',
 'Tests use a few fixed masks without multiple overlaps.',
 [SS+'annotation.py',SS+'computation.py',SS+'loader.py',SS+'shared.py',SS+'evaluator.py'],
 [('Segmentation._validate_bitmasks',SS+'annotation.py'),('compute_intermediates',SS+'computation.py'),('Loader.add_data',SS+'loader.py'),('_compute_confusion_matrix_intermediate',SS+'evaluator.py')],
 ['Evaluator.get_info','Evaluator.compute_precision_recall_iou'])
p('C13','Segmentation metrics follow from the pixel counts',
 'Per label, precision is correctly labelled pixels over predicted pixels, recall the same over ground truth pixels, F1 their harmonic mean, and IoU of a ground truth label and a predicted label is their common pixels over the pixels in either; each is 0 when undefined. mIOU is the mean of the per-label IoU, accuracy is the fraction of all pixels (background included) whose ground truth and prediction agree, and unmatched ratios are the fraction of a label\'s pixels with no label on the other side; all lie in [0, 1].',
 ['inputs','configurations'],'all pixel counts, label sets and datum filters',
 'Formulas must hold for all counts.',
 [SS+'computation.py',SS+'utilities.py',SS+'evaluator.py'],
 [('compute_metrics',SS+'computation.py'),('unpack_precision_recall_iou_into_metric_lists',SS+'utilities.py')],
 ['Evaluator.compute_precision_recall_iou'])
p('C14','Caches return exactly the rows written, in write order',
 'Whatever mix of row, column, batch and table writes is made and whatever the batch size and rows per file, after flushing (explicitly, by leaving the context or by taking a reader) the cache yields exactly the written rows, each once, unchanged and in the order written, and reports their number; flushing again or taking more readers changes nothing. Rows written in one call stay in one table, and column selection or a filter returns exactly the selected columns or matching rows.',
 ['histories','configurations'],'all sequences of writes and flushes, all batch sizes and file sizes, memory and file caches',
 'Buffering state depends on the whole write history; tests use a few sizes.',
 [CA+'ephemeral.py',CA+'persistent.py'],
 [('MemoryCacheWriter.write_batch/write_table/flush',CA+'ephemeral.py'),('FileCacheWriter.write_batch/write_table/flush',CA+'persistent.py'),('iterate_tables, iterate_arrays, iterate_tables_with_arrays',CA+'ephemeral.py, '+CA+'persistent.py')],
 ['reader.iterate_tables','count_rows'],
 [{'name':'_buffer/_count/_writer','meaning':'rows accepted but not yet stored','where':CA+'persistent.py'}])
p('C15','External sort yields a sorted permutation of the source',
 'Sorting a cache into another produces exactly the rows of the source, each once, ordered by the requested keys and directions, for any number of tables, any batch size and any table sizes including empty ones. Sorting a cache in place keeps each table\'s rows and orders them; the source of a sort is not modified.',
 ['inputs','configurations'],'all row contents with ties, numbers of tables, batch sizes, sort keys and directions',
 'The merge interleaves fragments by data values; tests fix a few layouts.',
 [CA+'compute.py',CA+'ephemeral.py',CA+'persistent.py'],
 [('sort, _merge',CA+'compute.py'),('sort_by',CA+'ephemeral.py, '+CA+'persistent.py')],
 ['compute.sort'])
p('C16','Pagination tiles the datums without gaps or repeats',
 'A page with a given offset and limit contains all rows of exactly the datums at positions offset to offset+limit-1 of the (filtered) datum index, so that consecutive pages together return every datum exactly once and the union of all pages equals the unpaginated result. Pages past the end are empty and no limit means no upper bound.',
 ['inputs','configurations'],'all offsets and limits, datum filters, and distributions of rows over datums and files',
 'Page edges interact with file edges; tests try few offsets.',
 [CA+'compute.py'],
 [('paginate_index',CA+'compute.py')],
 ['compute.paginate_index','Evaluator.compute_examples'])
p('C17','Results do not depend on storage, batching or insertion granularity',
 'Evaluating the same data gives the same metrics in memory and on disk, for any write batch size, rows per file, finalize batch size or compression, whether the data was added in one call or many, and whether the evaluator is used directly or loaded again from disk.',
 ['configurations','histories'],'all cache configurations and partitions of the data into add calls',
 'Tests run one or two configurations per metric.',
 [OD+'evaluator.py',CL+'evaluator.py',SS+'evaluator.py',CA+'compute.py',CA+'persistent.py'],
 [('per-chunk accumulation in compute_* methods',OD+'evaluator.py'),('Evaluator.load',OD+'evaluator.py'),('FileCacheReader.load',CA+'persistent.py')],
 ['all compute methods'])
p('C18','Filtering equals evaluating the selected subset',
 'Passing a datum filter to a metric gives the result of an evaluation containing only the datums that satisfy it, and filtering an evaluator gives a new evaluator over only the datums, ground truths and predictions that satisfy the expressions, with the original label set. An annotation that is filtered out disappears from all counts while the other annotations of its datum remain; the original evaluator is unchanged.',
 ['inputs','configurations'],'all filter expressions over identifiers, labels, scores and metadata, on memory and disk',
 'Any subset may be selected; tests filter on a few ids.',
 [OD+'evaluator.py',CL+'evaluator.py',SS+'evaluator.py'],
 [('Evaluator.filter',OD+'evaluator.py'),('Evaluator.filter',CL+'evaluator.py'),('Evaluator.filter',SS+'evaluator.py')],
 ['Evaluator.filter','compute methods with datums='])
p('C19','LLM-guided text scores are the documented proportions of verdicts',
 'Relevance, bias, toxicity, faithfulness, hallucination, context relevance and context recall are the fraction of "yes" verdicts among the items judged (for recall the maximum over ground truths), answer correctness is the best F1 = TP/(TP+(FP+FN)/2) over ground truths, and context precision is the mean of precision at k over the positions k judged useful for any ground truth. Empty inputs give the documented fixed value, every score lies in [0, 1] (coherence in 1..5) and ROUGE and BLEU scores are never negative.',
 ['inputs'],'all numbers of items and ground truths and all verdict patterns',
 'Verdict patterns are unbounded; tests mock a few.',
 [TG+'computation.py',TG+'manager.py'],
 [('calculate_* functions',TG+'computation.py')],
 ['text_generation Evaluator.compute_*'])
p('C20','Malformed LLM output never becomes a score; retries are bounded',
 'A response that is not a JSON object with the required keys, types, allowed verdicts and number of entries is rejected as an invalid response and never contributes to a score. A metric call makes at most one attempt plus the configured number of retries, stops at the first valid attempt, and when all attempts are invalid returns an error metric naming the error; other errors are raised to the caller.',
 ['inputs','fault_sequences'],'all response texts and all sequences of valid and invalid responses',
 'The space of malformed responses and failure sequences is unbounded.',
 [TG+'llm/validators.py',TG+'llm/utilities.py',TG+'llm/generation.py',TG+'manager.py'],
 [('validate_statements, validate_verdicts',TG+'llm/validators.py'),('trim_and_load_json',TG+'llm/utilities.py'),('_generate and generate_*',TG+'llm/generation.py'),('llm_guided_metric',TG+'manager.py')],
 ['text_generation Evaluator.compute_*'])
p('C21','Invalid inputs are rejected and existing caches are never overwritten',
 'Annotations whose labels and scores do not correspond, predictions without scores, empty polygons or masks, masks of the wrong type or shape, classifications without predictions, metadata fields that clash with built-in fields, empty threshold lists and empty caches are rejected with an error. Creating a cache where something already exists fails unless deletion was requested, and deleting a cache removes only that cache\'s own files.',
 ['inputs','histories'],'all combinations of label and score counts, mask types, metadata names and pre-existing directory contents',
 'Tests try a few invalid values.',
 [OD+'annotation.py',CL+'annotation.py',SS+'annotation.py',OD+'shared.py',CL+'shared.py',SS+'shared.py',CA+'persistent.py'],
 [('__post_init__ validators',OD+'annotation.py'),('generate_*_schema',OD+'shared.py'),('FileCacheWriter.create, FileCacheWriter.delete',CA+'persistent.py')],
 ['constructors, Loader.*, FileCacheWriter.create/delete'])
p('C22','Every reported metric carries its own label and thresholds',
 'Each metric list contains exactly one entry per label and threshold combination it is documented for, and the value, label and thresholds of an entry belong together: reading the entry of a label at a threshold gives the value computed for that label at that threshold. Repeated and unordered thresholds are reported as given.',
 ['inputs','configurations'],'all label sets and threshold lists',
 'Index mix-ups only show for particular shapes; tests use few.',
 [OD+'utilities.py',CL+'utilities.py',SS+'utilities.py',OD+'metric.py',CL+'metric.py',SS+'metric.py'],
 [('unpack_* functions',OD+'utilities.py'),('Metric constructors',OD+'metric.py')],
 ['all compute methods'])
p('C23','Evaluator information reports true totals',
 'The evaluator reports the number of datums, ground truth annotations, prediction annotations and labels that were added (for detections without any annotation, none), also under datum, ground truth and prediction filters, independent of how the data is split over files, and label names are recovered unchanged when a cache is loaded.',
 ['inputs','configurations'],'all data, filters and cache layouts',
 'Totals are accumulated per file; tests use one or two layouts.',
 [OD+'shared.py',CL+'shared.py',SS+'shared.py'],
 [('extract_counts, extract_labels, extract_groundtruth_count_per_label',OD+'shared.py'),('extract_counts, extract_labels',CL+'shared.py')],
 ['Evaluator.info','Evaluator.get_info'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
