"""Regenerates /verif/properties.jsonl (kept as code so that statements and anchors stay in step)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
M="sidetopics/model/"; U="sidetopics/util/"
prop("C01","Cross-validation folds partition the documents",
 "For every document count, fold count and fold number, the training and query documents of a cross-validation split are disjoint and together contain every document exactly once, and every document is a query document of at least one fold. Each side of the split keeps, for every document it selected, that document's own words, features, links, categories and original position.",
 ["inputs","configurations"],"every dataset (any number of documents, with or without features, links, categories), every fold count > 1 and every fold number below it",
 "No stable test calls the splitter with a fold count that does not divide the corpus, or checks row alignment; the quantifier is over all (documents, folds, fold) triples.",
 [M+"common.py"],[("modular index ranges","DataSet.cross_valid_split_indices"),("row selection","DataSet.cross_valid_split")],
 observe=["DataSet.cross_valid_split_indices","DataSet.cross_valid_split"])
prop("C02","Dataset transformations keep each document's data together",
 "Every operation that selects, reorders, limits or prunes documents or words applies the same selection to words, features, links and categories, so row i of every matrix in the result describes the same original document; square link matrices have their columns reordered with their rows. Pruning keeps exactly the documents or words that meet the stated threshold, and the reported order names the original row of every remaining row.",
 ["inputs","configurations"],"every dataset and every permutation/selection/threshold/seed",
 "Tests only build a dataset from one small fixture; coherence must hold for all matrices, orders and thresholds.",
 [M+"common.py"],[("coherent reindexing","DataSet._reorder"),("link reindexing","_reorder_link_matrix"),("pruning","DataSet.prune_and_shuffle"),("vocabulary pruning","DataSet.words_with_min_freq"),("feature split","DataSet.split_on_feature"),("column dropping","dropcols_fancy, dropcols_coo")],
 state=[("order","original row index of each current row","DataSet._order")],
 observe=["DataSet.words","DataSet.feats","DataSet.links","DataSet.order"])
prop("C03","Train/evaluation splits conserve every observation",
 "A document-completion split gives every document two halves with non-negative counts that add up, word by word, to the original counts. A link split gives two matrices that add up to the original links and never share a link; the symmetric variant returns symmetric matrices.",
 ["inputs","configurations"],"every count matrix / link matrix, seed and proportion",
 "The tests never add the halves back together; conservation must hold for every matrix and every random draw of the split.",
 [M+"common.py"],[("jittered rounding","DataSet.doc_completion_split"),("random halves","_split, _split_symm, _symm_csr"),("per-document folds","_folded_split")],
 observe=["DataSet.doc_completion_split","DataSet.link_prediction_split","DataSet.folded_link_prediction_split"])
prop("C04","Sparse kernels equal their dense definitions",
 "For every sparse matrix A and dense B, C (and divisor d), the sparse element-wise helpers return a matrix with the sparsity pattern of A whose value at each stored position is A/(BC), A/(BC/d), A*(BC) or A*ln(BC), with a non-positive product clamped to the logarithm of the smallest positive number; restricting to a row range changes only those rows' entries. The compiled and the pure-Python variants agree, write only to the output buffer, and never read or write out of bounds.",
 ["inputs"],"all shapes, sparsity patterns (including empty rows), values, dtypes and row ranges",
 "The only test of these kernels asserts nothing; correctness and memory safety are for every sparsity pattern.",
 [U+"sparse_elementwise.py",U+"se_fast.pyx"],[("compiled kernels","se_fast.pyx"),("dispatch and fallbacks","sparse_elementwise.py")],
 observe=["sparseScalarQuotientOfDot","sparseScalarQuotientOfNormedDot","sparseScalarProductOfDot","sparseScalarProductOfSafeLnDot"])
prop("C05","Vec-transpose moves every element to its defined place",
 "The vec-transpose of an (r x c) matrix with scale p places element (i, j) at row j*p + i mod p and column floor(i/p), for dense and sparse inputs of every dtype, and its result has c*p rows and r/p columns. The vec-transpose matrix maps vec(A) to vec(A transposed), and vec stacks columns.",
 ["inputs"],"all shapes, all p dividing the row count, all dtypes and sparsity patterns",
 "Tests use a handful of fixed small matrices; index arithmetic must be right for every shape and p.",
 [U+"vectrans.py",U+"vt_fast.pyx"],[("index maps","vt_fast.pyx"),("dispatch and fallbacks","vectrans.py")],
 observe=["vec_transpose","vec_transpose_csr","sp_vec_trans_matrix","vec"])
prop("C06","Overflow-safe functions equal the functions they stand for",
 "In exact arithmetic and up to their documented clamps, the safe logarithm, x log x, log(1+exp x), log-sum-exp, softmax, softmax dot-product and entropy helpers equal their mathematical definitions, softmax results are non-negative and sum to one, and arguments not documented as outputs are left unchanged. Every input value falls in exactly one branch of the piecewise definitions, and weighted variants apply the weight of the matching row.",
 ["inputs"],"every finite matrix/vector input, every weight vector",
 "There are no stable tests of these helpers; piecewise branches must cover all reals.",
 [U+"overflow_safe.py",U+"sigmoid_utils.py",U+"sig_fast.pyx",U+"se_fast.pyx",U+"sparse_elementwise.py"],
 [("piecewise evaluation","safe_log, safe_x_log_x, safe_log_one_plus_exp_of"),("scaled exponentials","rowwise_softmax, colwise_softmax, selfSoftDot"),("compiled sums","scaledSumOfLnOnePlusExp_f8/f4, entropyOfDot_f8/f4")],
 observe=["safe_log","safe_x_log_x","safe_log_one_plus_exp_of","rowwise_softmax","colwise_softmax","lse","selfSoftDot","scaledSelfSoftDot","scaledSumOfLnOnePlusExp","entropyOfDot"])
prop("C07","Evaluation metrics follow their definitions and ranges",
 "Perplexity is exp(-log-likelihood / token count) for every score and corpus; precision-at-m, recall-at-m, reciprocal rank and average precision are the documented ratios of the top-ranked documents, always lie in [0, 1], reach 1 for a perfect ranking, and documents without expected links are left out of the averages. Evaluation never changes the link matrices or options it was given.",
 ["inputs"],"all expected/estimated link matrices, cut-offs and group definitions",
 "No stable test covers the metrics; ranges and definitions must hold for every ranking.",
 [M+"evals.py"],[("perplexity","perplexity_from_like, word_perplexity"),("ranking metrics","mean_reciprocal_rank, mean_prec_rec_at, mean_average_prec")],
 observe=["perplexity_from_like","mean_reciprocal_rank","mean_prec_rec_at","mean_average_prec"])
prop("C08","CVB0 inference conserves token counts",
 "After initialisation and after every inference pass of the zero-order collapsed variational model, each token's topic weights are non-negative and sum to one, and the expected counts per document and topic, per topic and word and per topic equal the sums of those weights over the matching tokens. Querying only changes the document-level quantities, and no array is accessed out of bounds.",
 ["inputs","histories"],"every corpus, topic count, prior, dtype and number of passes",
 "Tests only look at a final score on one corpus; the count identities must hold after every token update for every corpus.",
 [M+"lda_cvb0.py",M+"lda_cvb0_fast.pyx"],[("in-place count maintenance","iterate_f32/f64, query_f32/f64"),("count initialisation","calculateCounts_f32/f64")],
 state=[("n_dk, n_kt, n_k","expected counts","QueryState/ModelState of lda_cvb0")],
 observe=["lda_cvb0.train","lda_cvb0.query"])
prop("C09","CVB inference conserves token counts and variances",
 "After initialisation and after every inference pass of the collapsed variational model, each token's topic weights are non-negative and sum to one, the expected counts equal the sums of those weights over the matching tokens, and the variance counts equal the matching sums of weight*(1-weight). No array is accessed out of bounds.",
 ["inputs","histories"],"every corpus, topic count, prior, dtype and number of passes",
 "Tests only look at a final score on one corpus; mean and variance identities must hold after every token update for every corpus.",
 [M+"lda_cvb.py",M+"lda_cvb_fast.pyx"],[("in-place mean/variance maintenance","iterate_f32/f64, query_f32/f64"),("initialisation","calculateCounts_f32/f64")],
 state=[("n_*, v_*","expected counts and variances","QueryState/ModelState of lda_cvb")],
 observe=["lda_cvb.train","lda_cvb.query"])
prop("C10","Gibbs samplers keep counts consistent with assignments",
 "At initialisation and after every sampled token, for every random stream, the Gibbs samplers' document/topic, topic/word and topic counts equal the numbers of tokens with those assignments, and every assignment is a valid topic. Samples are taken on every thin-th sweep, the reported number of samples equals the number accumulated, each accumulated sample is a probability distribution, and querying leaves the topic/word counts as they were.",
 ["inputs","histories"],"every corpus, topic count, prior, sweep count, thinning interval and every sequence of random numbers",
 "Tests run one seed on one corpus and look at a score; the invariant ranges over all random streams and sweeps.",
 [M+"lda_gibbs.py",M+"lda_gibbs_fast.pyx",M+"dmr.py",M+"dmr_fast.pyx"],[("decrement/resample/increment","sample"),("initial counts","sumSuffStats"),("sample bookkeeping","train, query, newTrainPlan")],
 state=[("ndk, nkv, nk","token counts","lda_gibbs_fast.sample, dmr_fast.sample")],
 observe=["lda_gibbs.train","lda_gibbs.query","dmr.train","dmr.query"])
prop("C11","Bag-of-words expansion loses and invents no token",
 "Expanding a document-term count matrix into token lists yields, for every document, exactly as many tokens of each word as the matrix counts, reported document lengths equal to the row sums, and nothing outside the vocabulary. The input matrix is left unchanged.",
 ["inputs"],"every non-negative integer count matrix, including empty rows and repeated words",
 "Tests never compare the expansion with the matrix it came from.",
 [M+"lda_cvb_fast.pyx",M+"lda_cvb0_fast.pyx",M+"lda_vb_fast.pyx",M+"lda_gibbs_fast.pyx",M+"dmr_fast.pyx"],[("token expansion","toWordList, flatten, flatten_native")],
 observe=["toWordList","flatten"])
prop("C12","Querying and reading results leave the trained model unchanged",
 "Inferring topics for new documents, and reading topic or word distributions, never changes any parameter of the trained model or of an already returned result, for every model type: the same model gives the same word distributions before and after any number of queries and reads.",
 ["inputs","histories"],"every model type, trained model, query corpus, and every sequence of queries and accessor calls",
 "Tests only check that a second fit/transform scores about as well; in-place changes of shared arrays go unnoticed.",
 [M+"lda_cvb0.py",M+"lda_cvb.py",M+"lda_vb.py",M+"lda_vb_python.py",M+"lda_gibbs.py",M+"mom_em.py",M+"mom_gibbs.py",M+"dmr.py"],
 [("frame of query","query of every model module"),("pure accessors","wordDists, topicDists of every model module")],
 observe=["query","wordDists","topicDists","TopicModel.transform","TopicModel.components_"])
prop("C13","Reported topic and word distributions are probabilities",
 "For every model type, whatever valid (positive, finite) state training or querying ended in, each row of the reported topic distributions and of the reported word distributions is non-negative, sums to one, and is proportional to the underlying state.",
 ["inputs","histories"],"every model type, every corpus and every reachable state",
 "Tests check normalisation on one trained model at most; the normalisation must hold for every state and every axis size.",
 [M+"lda_cvb0.py",M+"lda_cvb.py",M+"lda_vb.py",M+"lda_vb_python.py",M+"lda_svb.py",M+"lda_gibbs.py",M+"mom_em.py",M+"mom_gibbs.py",M+"dmr.py"],
 [("row normalisation","wordDists, topicDists of every model module")],
 observe=["wordDists","topicDists","TopicModel.components_","TopicModel.transform"])
prop("C14","Point log-likelihoods equal the documented formula",
 "For every corpus, topic weights and word distributions, the point log-likelihood of an admixture is the sum over documents and words of count * ln(sum_k weight_k * p(word|k)), and that of a mixture is per document ln(sum_k weight_k * prod_words p(word|k)^count), for the library functions and for the scikit-learn wrapper alike. Perplexity scores are derived from that same value and the corpus's own token count.",
 ["inputs"],"every corpus, weight matrix, component matrix and model type",
 "Tests only compare two scores of the same code with each other, so a wrong formula passes.",
 [M+"lda_cvb0.py",M+"lda_cvb.py",M+"lda_vb.py",M+"lda_gibbs.py",M+"lda_vb_python.py",M+"mom_em.py",M+"mom_gibbs.py",M+"dmr.py",M+"sklearn/lda_cvb.py",M+"evals.py"],
 [("admixture formula","log_likelihood / log_likelihood_point of the model modules"),("mixture log-sum-exp","mom_em.log_likelihood_point, TopicModel._log_likelihood_score_point")],
 observe=["log_likelihood_point","TopicModel.log_likelihood_score_point","TopicModel.score"])
prop("C15","Model copies are equal and independent",
 "Copying a model of any type gives a model whose every field equals the original's, and no later in-place change of an array of the copy, by training or otherwise, is visible in the original, or the other way round.",
 ["inputs","histories"],"every model type and every model state, trained or not",
 "No stable test copies a model; equality and independence are about every field.",
 [M+"lda_cvb0.py",M+"lda_cvb.py",M+"lda_vb.py",M+"lda_vb_python.py",M+"lda_svb.py",M+"lda_gibbs.py",M+"mom_em.py",M+"mom_gibbs.py",M+"dmr.py"],
 [("field-wise deep copy","newModelFromExisting of every model module")],
 observe=["newModelFromExisting"])
prop("C16","The scikit-learn wrapper resumes and scores consistently",
 "Resuming is accepted only for the very dataset whose state was persisted last and continues from exactly that state, every other fit or transform starts from a fresh state, and a run that was not asked to persist leaves none behind. Each scoring method is a point or expected, plain or document-completion, likelihood or perplexity score exactly as its name says, supplying both forms of assignments is rejected, and metrics are reported under the right names.",
 ["inputs","histories","configurations"],"every sequence of fit/transform/score calls with every combination of options and scoring methods",
 "Tests try a few call sequences; the state machine must be right for every history and option combination.",
 [M+"sklearn/lda_cvb.py"],[("resume guard","TopicModel.make_or_resume_query_state"),("persisted state","TopicModel._set_or_clear_last_query_state, find_query_state_via_transform"),("score dispatch","TopicModel.score, ScoreMethod")],
 state=[("_last_X, _last_query_state","dataset and state of the last persisted run","TopicModel")],
 observe=["TopicModel.fit","TopicModel.transform","TopicModel.score"])
prop("C17","Variational LDA updates conserve mass and invert cleanly",
 "In the variational LDA implementations, converting between mean and Dirichlet-parameter form and back is the identity; in exact arithmetic every topic update gives each document parameters that sum to its length plus the prior mass, and every full-batch word update adds exactly the corpus's token count to the prior mass. Learning rates used for partial updates lie between zero and one.",
 ["inputs","configurations"],"every corpus, prior, topic count, learning-rate setting and iteration number",
 "Tests compare scores only; the conservation laws and inverses are for every corpus and configuration.",
 [M+"lda_vb_python.py",M+"lda_vb.py"],[("parameter conversions","lda_vb_python mean/Dirichlet conversions"),("updates","lda_vb_python train/query steps")],
 observe=["lda_vb_python.train","lda_vb_python.query"])
prop("C18","DMR optimises its objective with the true gradient",
 "For every set of topic-count samples, features, weights and topic, the objective handed to the optimiser is the negative Dirichlet-multinomial log-posterior of that topic's weights, and the gradient handed with it is the exact derivative of that objective with respect to every weight.",
 ["inputs"],"all samples, feature matrices (any number of documents, across batch boundaries), weights and topics",
 "No test evaluates the objective or its gradient; finite differences at a few points cannot cover all shapes.",
 [M+"dmr.py"],[("objective","dmr.objective"),("gradient","dmr.gradient")],
 observe=["dmr.objective","dmr.gradient"])
prop("C19","Mixture-of-multinomials steps are true posteriors",
 "In the mixture models, each document's topic responsibilities are non-negative, sum to one and are proportional to the topic weight times the likelihood of the document's words under each topic, and each update of the word and topic parameters equals the prior plus the responsibility-weighted counts.",
 ["inputs"],"every corpus, prior and parameter state",
 "Tests look at scores of one trained model; the update equations must hold for every state.",
 [M+"mom_em.py",M+"mom_gibbs.py"],[("responsibilities","mom_em.train, mom_em.query"),("membership sampling","mom_gibbs.sample_memberships, sample_dirichlet")],
 observe=["mom_em.train","mom_em.query","mom_gibbs.query"])
prop("C20","Training never lowers the variational bound",
 "Each full-batch pass of the variational models leaves the variational lower bound no lower than it was, up to rounding.",
 ["inputs","histories"],"every corpus, initial state and number of passes",
 "Tests check at most one run; monotonicity is over all histories.",
 [M+"lda_vb_python.py",M+"lda_cvb0.py",M+"lda_cvb.py"],[("coordinate ascent","train"),("bound","var_bound")],
 observe=["var_bound"])
prop("C21","Side-information models predict links consistently",
 "For every corpus with features or links, the correlated and relational topic models' predicted links and topics depend only on the documents' own data and give valid probabilities.",
 ["inputs"],"every corpus, feature and link matrix",
 "The tests of these models do not run at this commit.",
 [M+"rtm.py",M+"ctm.py",M+"stm_yv.py",M+"mtm.py"],[("link probabilities","link_probs of the link-prediction modules")],
 observe=["link_probs"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
