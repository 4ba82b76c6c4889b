// Generated by tools/options_table.py from doc/C/options/all_table.rst at the pinned commit.
// kind, name, type (i r s), default known, default string, default number, labels, lower, type, upper, type (0 none, 1 strict, 2 weak)
{"linmod", "mixed precision", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"linmod", "optim method", 's', true, "auto", 0, {"auto", "bfgs", "cg", "chol", "cholesky", "coord", "lbfgs", "lbfgsb", "qr", "sparse_cg", "svd"}, 0, 0, 0, 0},
{"linmod", "low precision convergence tol", 'r', true, "", 1e-3, {}, 0, 2, 0, 0},
{"linmod", "scaling", 's', true, "auto", 0, {"auto", "centering", "no", "none", "scale", "scale only", "standardise", "standardize"}, 0, 0, 0, 0},
{"linmod", "print options", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"linmod", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"linmod", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"linmod", "optim dual gap tol", 'r', true, "", 1e-4, {}, 0, 1, 0, 0},
{"linmod", "print level", 'i', true, "", 0, {}, 0, 2, 5, 2},
{"linmod", "optim convergence tol", 'r', true, "", 1e-4, {}, 0, 1, 1, 1},
{"linmod", "intercept", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"linmod", "optim iteration limit", 'i', true, "", 10000, {}, 1, 2, 0, 0},
{"linmod", "low precision iteration limit", 'i', true, "", 5000, {}, 1, 2, 0, 0},
{"linmod", "optim progress factor", 'r', false, "", 0, {}, 0, 2, 0, 0},
{"linmod", "alpha", 'r', true, "", 0, {}, 0, 2, 1, 2},
{"linmod", "optim coord skip min", 'i', true, "", 2, {}, 2, 2, 0, 0},
{"linmod", "optim coord skip max", 'i', true, "", 100, {}, 10, 2, 0, 0},
{"linmod", "debug", 'i', true, "", 0, {}, 0, 2, 3, 2},
{"linmod", "logistic constraint", 's', true, "ssc", 0, {"reference category", "rsc", "ssc", "symmetric", "symmetric side"}, 0, 0, 0, 0},
{"linmod", "optim time limit", 'r', true, "", 1e6, {}, 0, 1, 0, 0},
{"linmod", "lambda", 'r', true, "", 0, {}, 0, 2, 0, 0},
{"pca", "power normalization", 's', true, "qr", 0, {"lu", "none", "qr"}, 0, 0, 0, 0},
{"pca", "power iterations", 'i', true, "", -1, {}, -1, 2, 0, 0},
{"pca", "degrees of freedom", 's', true, "unbiased", 0, {"biased", "unbiased"}, 0, 0, 0, 0},
{"pca", "pca method", 's', true, "covariance", 0, {"correlation", "covariance", "svd"}, 0, 0, 0, 0},
{"pca", "whiten", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"pca", "seed", 'i', true, "", 0, {}, -1, 2, 0, 0},
{"pca", "store u", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"pca", "n_components", 'i', true, "", 1, {}, 0, 2, 0, 0},
{"pca", "svd solver", 's', true, "auto", 0, {"auto", "gesdd", "gesvd", "gesvdx", "randomized", "syevd"}, 0, 0, 0, 0},
{"pca", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"pca", "n_oversamples", 'i', true, "", 10, {}, 0, 2, 0, 0},
{"pca", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"kmeans", "low precision convergence tolerance", 'r', true, "", 1e-2, {}, 0, 2, 0, 0},
{"kmeans", "convergence tolerance", 'r', true, "", 1e-4, {}, 0, 2, 0, 0},
{"kmeans", "normalize data", 's', true, "yes", 0, {"no", "yes"}, 0, 0, 0, 0},
{"kmeans", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"kmeans", "n_init", 'i', true, "", 10, {}, 1, 2, 0, 0},
{"kmeans", "low precision max_iter", 'i', true, "", 200, {}, 1, 2, 0, 0},
{"kmeans", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"kmeans", "max_iter", 'i', true, "", 300, {}, 1, 2, 0, 0},
{"kmeans", "seed", 'i', true, "", 0, {}, -1, 2, 0, 0},
{"kmeans", "initialization method", 's', true, "k-means++", 0, {"afk-mc2", "k-means++", "random", "random partitions", "supplied"}, 0, 0, 0, 0},
{"kmeans", "algorithm", 's', true, "lloyd", 0, {"elkan", "hartigan-wong", "lloyd", "macqueen"}, 0, 0, 0, 0},
{"kmeans", "mixed precision", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"kmeans", "n_clusters", 'i', true, "", 1, {}, 1, 2, 0, 0},
{"kmeans", "afk-mc2 samples", 'i', true, "", 50, {}, 1, 2, 0, 0},
{"kmeans", "distance", 's', true, "euclidean", 0, {"cosine", "euclidean"}, 0, 0, 0, 0},
{"kmeans", "empty clusters", 's', true, "ignore", 0, {"error", "ignore", "split"}, 0, 0, 0, 0},
{"dbscan", "power", 'r', true, "", 2.0, {}, 0, 2, 0, 0},
{"dbscan", "metric", 's', true, "euclidean", 0, {"cityblock", "cosine", "euclidean", "l1", "l2", "manhattan", "minkowski", "sqeuclidean"}, 0, 0, 0, 0},
{"dbscan", "algorithm", 's', true, "auto", 0, {"auto", "ball tree", "brute", "kd tree"}, 0, 0, 0, 0},
{"dbscan", "leaf size", 'i', true, "", 30, {}, 1, 2, 0, 0},
{"dbscan", "eps", 'r', true, "", 1e-4, {}, 0, 2, 0, 0},
{"dbscan", "min samples", 'i', true, "", 5, {}, 1, 2, 0, 0},
{"dbscan", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"dbscan", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"decision_tree", "maximum bins", 'i', true, "", 256, {}, 2, 2, 65535, 2},
{"decision_tree", "histogram", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"decision_tree", "category split strategy", 's', true, "ordered", 0, {"one-vs-all", "ordered"}, 0, 0, 0, 0},
{"decision_tree", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"decision_tree", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"decision_tree", "feature threshold", 'r', true, "", 1e-05, {}, 0, 2, 0, 0},
{"decision_tree", "node minimum samples", 'i', true, "", 2, {}, 1, 2, 0, 0},
{"decision_tree", "predict probabilities", 's', true, "yes", 0, {"no", "yes"}, 0, 0, 0, 0},
{"decision_tree", "detect categorical data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"decision_tree", "scoring function", 's', true, "gini", 0, {"cross-entropy", "entropy", "gini", "misclass", "misclassification", "misclassification-error"}, 0, 0, 0, 0},
{"decision_tree", "maximum depth", 'i', true, "", 29, {}, 0, 2, 29, 2},
{"decision_tree", "seed", 'i', true, "", -1, {}, -1, 2, 0, 0},
{"decision_tree", "maximum features", 'i', true, "", 0, {}, 0, 2, 0, 0},
{"decision_tree", "minimum split score", 'r', true, "", 0, {}, 0, 2, 1, 2},
{"decision_tree", "category tolerance", 'r', true, "", 1e-05, {}, 0, 2, 1, 1},
{"decision_tree", "maximum categories", 'i', true, "", 50, {}, 2, 2, 0, 0},
{"decision_tree", "minimum impurity decrease", 'r', true, "", 0, {}, 0, 2, 0, 0},
{"decision_forest", "maximum tree threads", 'i', true, "", 0, {}, 0, 2, 0, 0},
{"decision_forest", "category split strategy", 's', true, "ordered", 0, {"one-vs-all", "ordered"}, 0, 0, 0, 0},
{"decision_forest", "maximum bins", 'i', true, "", 256, {}, 2, 2, 65535, 2},
{"decision_forest", "histogram", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"decision_forest", "feature threshold", 'r', true, "", 1e-05, {}, 0, 2, 0, 0},
{"decision_forest", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"decision_forest", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"decision_forest", "minimum split score", 'r', true, "", 1e-05, {}, 0, 2, 1, 2},
{"decision_forest", "maximum features", 'i', true, "", 0, {}, 0, 2, 0, 0},
{"decision_forest", "number of trees", 'i', true, "", 100, {}, 1, 2, 0, 0},
{"decision_forest", "seed", 'i', true, "", -1, {}, -1, 2, 0, 0},
{"decision_forest", "node minimum samples", 'i', true, "", 2, {}, 1, 2, 0, 0},
{"decision_forest", "maximum depth", 'i', true, "", 29, {}, 0, 2, 29, 2},
{"decision_forest", "scoring function", 's', true, "gini", 0, {"cross-entropy", "entropy", "gini", "misclass", "misclassification", "misclassification-error"}, 0, 0, 0, 0},
{"decision_forest", "minimum impurity decrease", 'r', true, "", 0, {}, 0, 2, 0, 0},
{"decision_forest", "block size", 'i', true, "", 256, {}, 1, 2, 0, 0},
{"decision_forest", "features selection", 's', true, "sqrt", 0, {"all", "custom", "log2", "proportion", "sqrt"}, 0, 0, 0, 0},
{"decision_forest", "bootstrap", 's', true, "yes", 0, {"no", "yes"}, 0, 0, 0, 0},
{"decision_forest", "bootstrap samples factor", 'r', true, "", 1, {}, 0, 1, 1, 2},
{"decision_forest", "proportion features", 'r', true, "", 0.1, {}, 0, 1, 1, 2},
{"nlls", "ralfit model", 's', true, "hybrid", 0, {"gauss-newton", "hybrid", "quasi-newton", "tensor-newton"}, 0, 0, 0, 0},
{"nlls", "print level", 'i', true, "", 1, {}, 0, 2, 5, 2},
{"nlls", "derivative test tol", 'r', true, "", 1e-4, {}, 0, 1, 10, 2},
{"nlls", "ralfit iteration limit", 'i', true, "", 100, {}, 1, 2, 0, 0},
{"nlls", "lbfgsb memory limit", 'i', true, "", 11, {}, 1, 2, 1000, 2},
{"nlls", "lbfgsb iteration limit", 'i', true, "", 10000, {}, 1, 2, 0, 0},
{"nlls", "coord iteration limit", 'i', true, "", 100000, {}, 1, 2, 0, 0},
{"nlls", "monitoring frequency", 'i', true, "", 0, {}, 0, 2, 0, 0},
{"nlls", "check derivatives", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"nlls", "ralfit nlls method", 's', true, "galahad", 0, {"aint", "galahad", "linear solver", "more-sorensen", "powell-dogleg"}, 0, 0, 0, 0},
{"nlls", "optim method", 's', false, "", 0, {"bfgs", "coord", "lbfgs", "lbfgsb", "ralfit"}, 0, 0, 0, 0},
{"nlls", "ralfit convergence step size", 'r', false, "", 0, {}, 0, 1, 1, 1},
{"nlls", "coord restart", 'i', false, "", 0, {}, 0, 2, 0, 0},
{"nlls", "ralfit convergence rel tol grd", 'r', false, "", 0, {}, 0, 1, 1, 1},
{"nlls", "coord skip max", 'i', true, "", 100, {}, 10, 2, 0, 0},
{"nlls", "coord skip min", 'i', true, "", 2, {}, 2, 2, 0, 0},
{"nlls", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"nlls", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"nlls", "ralfit globalization method", 's', true, "trust-region", 0, {"reg", "regularization", "tr", "trust-region"}, 0, 0, 0, 0},
{"nlls", "ralfit convergence abs tol fun", 'r', false, "", 0, {}, 0, 1, 1, 1},
{"nlls", "print options", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"nlls", "debug", 'i', true, "", 0, {}, 0, 2, 3, 2},
{"nlls", "regularization term", 'r', true, "", 0, {}, 0, 2, 0, 0},
{"nlls", "finite differences step", 'r', false, "", 0, {}, 0, 1, 10, 1},
{"nlls", "lbfgsb convergence tol", 'r', false, "", 0, {}, 0, 1, 1, 1},
{"nlls", "lbfgsb progress factor", 'r', false, "", 0, {}, 0, 2, 0, 0},
{"nlls", "regularization power", 's', true, "quadratic", 0, {"cubic", "quadratic"}, 0, 0, 0, 0},
{"nlls", "infinite bound size", 'r', true, "", 1e20, {}, 1000, 1, 0, 0},
{"nlls", "time limit", 'r', true, "", 1e6, {}, 0, 1, 0, 0},
{"nlls", "coord convergence tol", 'r', false, "", 0, {}, 0, 1, 1, 1},
{"nlls", "coord optimality tol", 'r', false, "", 0, {}, 0, 2, 0, 0},
{"nlls", "ralfit convergence rel tol fun", 'r', false, "", 0, {}, 0, 1, 1, 1},
{"nlls", "coord skip tol", 'r', false, "", 0, {}, -1, 2, 0, 0},
{"nlls", "ralfit convergence abs tol grd", 'r', false, "", 0, {}, 0, 1, 1, 1},
{"nn", "weights", 's', true, "uniform", 0, {"distance", "uniform"}, 0, 0, 0, 0},
{"nn", "metric", 's', true, "euclidean", 0, {"cityblock", "cosine", "euclidean", "euclidean_gemm", "inner product", "l1", "l2", "manhattan", "minkowski", "sqeuclidean", "sqeuclidean_gemm"}, 0, 0, 0, 0},
{"nn", "algorithm", 's', true, "auto", 0, {"auto", "ball tree", "brute", "kd tree"}, 0, 0, 0, 0},
{"nn", "radius", 'r', true, "", 1, {}, 0, 2, 0, 0},
{"nn", "outlier target", 'r', true, "", 0, {}, 0, 0, 0, 0},
{"nn", "minkowski parameter", 'r', true, "", 2, {}, 0, 1, 0, 0},
{"nn", "outlier handling", 's', true, "none", 0, {"manual", "most frequent", "none"}, 0, 0, 0, 0},
{"nn", "outlier label", 'i', true, "", 0, {}, 0, 0, 0, 0},
{"nn", "leaf size", 'i', true, "", 30, {}, 1, 2, 0, 0},
{"nn", "number of neighbors", 'i', true, "", 5, {}, 1, 2, 0, 0},
{"nn", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"nn", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"svm", "mixed precision", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"svm", "low precision convergence tolerance", 'r', true, "", 1e-2, {}, 0, 2, 0, 0},
{"svm", "tau", 'r', false, "", 0, {}, 0, 2, 0, 0},
{"svm", "kernel", 's', true, "rbf", 0, {"linear", "poly", "polynomial", "rbf", "sigmoid"}, 0, 0, 0, 0},
{"svm", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"svm", "n_folds", 'i', true, "", 5, {}, 1, 2, 0, 0},
{"svm", "low precision max_iter", 'i', true, "", 80000, {}, 0, 2, 0, 0},
{"svm", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"svm", "cache size", 'r', true, "", -1, {}, -1, 2, 0, 0},
{"svm", "degree", 'i', true, "", 3, {}, 1, 2, 0, 0},
{"svm", "c", 'r', true, "", 1, {}, 0, 1, 0, 0},
{"svm", "max_iter", 'i', true, "", 100000, {}, 0, 2, 0, 0},
{"svm", "nu", 'r', true, "", 0.5, {}, 0, 1, 1, 2},
{"svm", "coef0", 'r', true, "", 0, {}, 0, 0, 0, 0},
{"svm", "tolerance", 'r', true, "", 1e-3, {}, 0, 1, 0, 0},
{"svm", "gamma", 'r', true, "", -1, {}, -1, 2, 0, 0},
{"svm", "max_ws_size", 'i', true, "", -1, {}, -1, 2, 0, 0},
{"svm", "predict probabilities", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"svm", "seed", 'i', true, "", 0, {}, -1, 2, 0, 0},
{"svm", "epsilon", 'r', true, "", 0.1, {}, 0, 2, 0, 0},
{"interpolation", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"interpolation", "cubic spline type", 's', true, "natural", 0, {"clamped zero", "custom", "hermite", "natural"}, 0, 0, 0, 0},
{"interpolation", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"approx_nn", "algorithm", 's', true, "ivfflat", 0, {"auto", "ivfflat"}, 0, 0, 0, 0},
{"approx_nn", "train fraction", 'r', true, "", 1, {}, 0, 1, 1, 2},
{"approx_nn", "k-means_iter", 'i', true, "", 10, {}, 1, 2, 0, 0},
{"approx_nn", "metric", 's', true, "sqeuclidean", 0, {"cosine", "euclidean", "inner product", "sqeuclidean"}, 0, 0, 0, 0},
{"approx_nn", "seed", 'i', true, "", 0, {}, -1, 2, 0, 0},
{"approx_nn", "n_probe", 'i', true, "", 1, {}, 1, 2, 0, 0},
{"approx_nn", "n_list", 'i', true, "", 1, {}, 1, 2, 0, 0},
{"approx_nn", "number of neighbors", 'i', true, "", 5, {}, 1, 2, 0, 0},
{"approx_nn", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"approx_nn", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"kernel_pca", "coef0", 'r', true, "", 1, {}, 0, 0, 0, 0},
{"kernel_pca", "kernel", 's', true, "linear", 0, {"linear", "poly", "precomputed", "rbf", "sigmoid"}, 0, 0, 0, 0},
{"kernel_pca", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"kernel_pca", "n_oversamples", 'i', true, "", 10, {}, 0, 2, 0, 0},
{"kernel_pca", "n_components", 'i', true, "", 0, {}, 0, 2, 0, 0},
{"kernel_pca", "degree", 'i', true, "", 3, {}, 1, 2, 0, 0},
{"kernel_pca", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"kernel_pca", "fit inverse transform", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"kernel_pca", "gamma", 'r', true, "", -1, {}, 0, 0, 0, 0},
{"kernel_pca", "remove zero eig", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"kernel_pca", "power normalization", 's', true, "qr", 0, {"lu", "none", "qr"}, 0, 0, 0, 0},
{"kernel_pca", "alpha", 'r', true, "", 1, {}, 0, 1, 0, 0},
{"kernel_pca", "copy data", 's', true, "yes", 0, {"no", "yes"}, 0, 0, 0, 0},
{"kernel_pca", "eigensolver", 's', true, "auto", 0, {"auto", "randomized", "syevd"}, 0, 0, 0, 0},
{"kernel_pca", "power iterations", 'i', true, "", -1, {}, -1, 2, 0, 0},
{"kernel_pca", "seed", 'i', true, "", 0, {}, -1, 2, 0, 0},
{"tsne", "mixed precision", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"tsne", "init", 's', true, "pca", 0, {"pca", "random", "supplied"}, 0, 0, 0, 0},
{"tsne", "low precision max_iter", 'i', true, "", 200, {}, 1, 2, 0, 0},
{"tsne", "check data", 's', true, "no", 0, {"no", "yes"}, 0, 0, 0, 0},
{"tsne", "n_components", 'i', true, "", 2, {}, 1, 2, 3, 2},
{"tsne", "max_iter", 'i', true, "", 1000, {}, 1, 2, 0, 0},
{"tsne", "seed", 'i', true, "", 0, {}, -1, 2, 0, 0},
{"tsne", "perplexity", 'r', true, "", 30, {}, 1, 2, 0, 0},
{"tsne", "n_iter_without_progress", 'i', true, "", 300, {}, 0, 2, 0, 0},
{"tsne", "early exaggeration", 'r', true, "", 12, {}, 1, 2, 0, 0},
{"tsne", "storage order", 's', true, "column-major", 0, {"c", "column-major", "f", "fortran", "row-major"}, 0, 0, 0, 0},
{"tsne", "learning rate", 'r', true, "", -1, {}, 0, 0, 0, 0},
{"tsne", "min_grad_norm", 'r', true, "", 1e-07, {}, 0, 2, 0, 0},
{"tsne", "theta", 'r', true, "", 0.5, {}, 0, 2, 1, 2},
{"tsne", "low precision min_grad_norm", 'r', true, "", 0.0001, {}, 0, 2, 0, 0},
{"datastore", "datastore precision", 's', true, "double", 0, {"double", "single"}, 0, 0, 0, 0},
{"datastore", "datatype", 's', true, "auto", 0, {"auto", "boolean", "double", "float", "integer", "string"}, 0, 0, 0, 0},
{"datastore", "use header row", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"datastore", "skip empty lines", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"datastore", "delimiter", 's', true, ",", 0, {}, 0, 0, 0, 0},
{"datastore", "warn for missing data", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"datastore", "thousands", 's', true, "", 0, {}, 0, 0, 0, 0},
{"datastore", "quote character", 's', true, "\"", 0, {}, 0, 0, 0, 0},
{"datastore", "decimal", 's', true, ".", 0, {}, 0, 0, 0, 0},
{"datastore", "scientific notation character", 's', true, "e", 0, {}, 0, 0, 0, 0},
{"datastore", "skip footer", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"datastore", "skip rows", 's', true, "", 0, {}, 0, 0, 0, 0},
{"datastore", "comment", 's', true, "#", 0, {}, 0, 0, 0, 0},
{"datastore", "whitespace delimiter", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"datastore", "escape character", 's', true, "\\", 0, {}, 0, 0, 0, 0},
{"datastore", "line terminator", 's', true, "", 0, {}, 0, 0, 0, 0},
{"datastore", "integers as floats", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"datastore", "row start", 'i', true, "", 0, {}, 0, 2, 0, 0},
{"datastore", "storage order", 's', true, "column-major", 0, {"column-major", "row-major"}, 0, 0, 0, 0},
{"datastore", "skip initial space", 'i', true, "", 0, {}, 0, 2, 1, 2},
{"datastore", "double quote", 'i', true, "", 0, {}, 0, 2, 1, 2},
