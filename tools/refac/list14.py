# the programs and the options they are given (C23)
K = 'exec/knori.cpp'
U = 'libkcommon/util.cpp'
R = {}
R['op01_helper'] = [(K, '''int main(int argc''', '''static double* load_centers(const std::string& fn, const unsigned k,
        const size_t ncol) {
    if (!kbase::is_file_exist(fn.c_str())) {
        printf("No centers to read ..\\n");
        return NULL;
    }
    double* out = new double [k*ncol];
    kbase::bin_io<double> rd(fn, k, ncol);
    rd.read(out);
    printf("Read centers!\\n");
    return out;
}

int main(int argc'''), (K, '''    double* p_centers = NULL;
    kbase::cluster_t ret;

    if (kbase::is_file_exist(centersfn.c_str())) {
        p_centers = new double [k*ncol];
        kbase::bin_io<double> br2(centersfn, k, ncol);
        br2.read(p_centers);
        printf("Read centers!\\n");
    } else
        printf("No centers to read ..\\n");
''', '''    double* p_centers = load_centers(centersfn, k, ncol);
    kbase::cluster_t ret;
''')]
R['op02_init'] = [(U, '''    if (init == "random")
        return init_t::RANDOM;
    else if (init == "forgy")
        return init_t::FORGY;
    else if (init == "kmeanspp")
        return init_t::PLUSPLUS;
    else if (init == "none")
        return init_t::NONE;
    else
        throw thread_exception(std::string("param init must be one of:"
                    " [random | forgy | kmeanspp]. It is '")
                + init + std::string("'"));
''', '''    if (!init.compare("none"))
        return init_t::NONE;
    if (init.compare("kmeanspp") == 0)
        return init_t::PLUSPLUS;
    if (init == "forgy")
        return init_t::FORGY;
    if (init != "random")
        throw thread_exception(std::string("param init must be one of:"
                    " [random | forgy | kmeanspp]. It is '")
                + init + std::string("'"));
    return init_t::RANDOM;
''')]
R['op03_null'] = [('exec/skmeans.cpp', '''    knor::coordinator::ptr kc =
        knor::skmeans_coordinator::create(datafn, nrow, ncol, k,
                max_iters, nnodes, nthread, &centers[0],
                init, tolerance, dist_type);
    ret = kc->run();
''', '''    const double* first = centers.empty() ? NULL : centers.data();
    auto kc = knor::skmeans_coordinator::create(datafn, nrow, ncol, k,
            max_iters, nnodes, nthread, first, init, tolerance, dist_type);
    const kbase::cluster_t got = kc->run();
    ret = got;
''')]
R['op04_size'] = [(K, '''int main(int argc''', '''static void check_size(const std::string& fn, const size_t n, const size_t m) {
    const size_t bytes = kbase::filesize(fn.c_str());
    if (bytes == n * m * sizeof(double))
        return;
    throw kbase::io_exception("File size does not match input size.");
}

int main(int argc'''), (K, '''    if (kbase::filesize(datafn.c_str()) != (sizeof(double)*nrow*ncol))
        throw kbase::io_exception("File size does not match input size.");
''', '''    check_size(datafn, nrow, ncol);
''')]
R['op05_hmeans'] = [('exec/hmeans.cpp', '''    if (kbase::is_file_exist(centersfn.c_str())) {
        centers.resize(2*ncol);
        kbase::bin_io<double> br(centersfn, 2, ncol);
        br.read(&centers[0]);
''', '''    const size_t nstart = 2;
    if (kbase::is_file_exist(centersfn.c_str())) {
        centers = std::vector<double>(nstart*ncol);
        kbase::bin_io<double> rdr(centersfn, nstart, ncol);
        rdr.read(centers.data());
''')]
R['op06_knord'] = [('exec/knord.cpp', '''			case 'P':
				no_prune = true;
				num_opts++;
				break;
			case 'N':
				nnodes = atoi(optarg);
				num_opts++;
				break;
''', '''			case 'N': {
				const unsigned nn = atoi(optarg);
				nnodes = nn;
				num_opts++;
				break;
			}
			case 'P':
				num_opts++;
				no_prune = true;
				break;
'''), ('exec/knord.cpp', '''    if (no_prune) {
        knor::dist::dist_coordinator::ptr dc =
            knor::dist::dist_coordinator::create(argc, argv,
                    datafn, nrow, ncol, k, max_iters, nnodes, nthread,
                    p_centers, init, tolerance, dist_type);
        std::static_pointer_cast<knor::dist::dist_coordinator>(
                dc)->run(ret, outdir);
    } else {
        knor::prune::dist_task_coordinator::ptr dc =
            knor::prune::dist_task_coordinator::create(argc, argv,
                    datafn, nrow, ncol, k, max_iters, nnodes, nthread,
                    p_centers, init, tolerance, dist_type);
        std::static_pointer_cast<knor::prune::dist_task_coordinator>(
                dc)->run(ret, outdir);
    }
''', '''    if (!no_prune) {
        auto dc = std::static_pointer_cast<knor::prune::dist_task_coordinator>(
            knor::prune::dist_task_coordinator::create(argc, argv,
                    datafn, nrow, ncol, k, max_iters, nnodes, nthread,
                    p_centers, init, tolerance, dist_type));
        dc->run(ret, outdir);
    } else {
        auto dc = std::static_pointer_cast<knor::dist::dist_coordinator>(
            knor::dist::dist_coordinator::create(argc, argv,
                    datafn, nrow, ncol, k, max_iters, nnodes, nthread,
                    p_centers, init, tolerance, dist_type));
        dc->run(ret, outdir);
    }
''')]
R['op07_medoids'] = [('exec/medoids.cpp', '''    std::vector<double> data(nrow*ncol);
    kbase::bin_io<double> br(datafn, nrow, ncol);
    br.read(&data);
    ret = kc->run(&data[0]);
''', '''    double* rows = new double[nrow*ncol];
    {
        kbase::bin_io<double> rdr(datafn, nrow, ncol);
        rdr.read(rows);
    }
    ret = kc->run(rows);
    delete [] rows;
''')]
R['op08_mb'] = [('exec/mb_knori.cpp', '''        knor::coordinator::ptr coord =
            kprune::kmeans_task_coordinator::create(datafn,
                    nrow, ncol, k, max_iters, nnodes, nthread, p_centers,
                    init, tolerance, dist_type);
        auto kc = std::static_pointer_cast<
            kprune::kmeans_task_coordinator>(coord);
        kc->set_mini_batch_size(mb_size);
        kbase::cluster_t ret = kc->mb_run();

        if (!outdir.empty()) {
            printf("\\nWriting output to '%s'\\n", outdir.c_str());
            ret.write(outdir);
        }
''', '''        auto kc = std::static_pointer_cast<kprune::kmeans_task_coordinator>(
            kprune::kmeans_task_coordinator::create(datafn,
                    nrow, ncol, k, max_iters, nnodes, nthread, p_centers,
                    init, tolerance, dist_type));
        kc->set_mini_batch_size(mb_size);
        kbase::cluster_t ret;
        ret = kc->mb_run();

        const bool save = outdir.size() > 0;
        if (save)
            ret.write(outdir);
''')]
R['op09_pp'] = [('exec/kmeanspp.cpp', '''    if (!outdir.empty()) {
        printf("\\nWriting output to '%s'\\n", outdir.c_str());
        ret.second.write(outdir);
    }
''', '''    kbase::cluster_t& best = ret.second;
    if (outdir.empty()) {
        printf("\\nNo output\\n");
    } else {
        best.write(outdir);
    }
''')]
R['op10_dist'] = [(U, '''    if (dist_type == "eucl")
        return dist_t::EUCL;
    else if (dist_type == "cos")
        return dist_t::COS;
    else if (dist_type == "taxi")
        return dist_t::TAXI;
    else if (dist_type == "sqeucl")
        return dist_t::SQEUCL;
    else
        throw thread_exception(std::string
                ("[ERROR]: param dist_type must be one of: 'eucl', 'cos', "
                 "'taxi', 'sqeucl'. It is '") + dist_type + std::string("'"));
''', '''    dist_t out;
    if (dist_type == "taxi") {
        out = dist_t::TAXI;
    } else if (dist_type == "cos") {
        out = dist_t::COS;
    } else if (dist_type == "eucl") {
        out = dist_t::EUCL;
    } else if (dist_type == "sqeucl") {
        out = dist_t::SQEUCL;
    } else {
        throw thread_exception(std::string
                ("[ERROR]: param dist_type must be one of: 'eucl', 'cos', "
                 "'taxi', 'sqeucl'. It is '") + dist_type + std::string("'"));
    }
    return out;
''')]
R['op11_given'] = [('exec/gmeans.cpp', '''    if (options.count("tol"))
        tolerance = std::stod(options["tol"].as<std::string>());
    if (options.count("centersfn")) {
''', '''    const bool has_tol = options.count("tol") > 0;
    if (has_tol) {
        const std::string txt = options["tol"].as<std::string>();
        tolerance = std::stod(txt);
    }
    const size_t ngiven = options.count("centersfn");
    if (ngiven != 0) {
''')]
R['op12_bound'] = [('exec/fcm.cpp', '''    if (kbase::filesize(datafn.c_str()) != (sizeof(double)*nrow*ncol))
        throw kbase::io_exception("File size does not match input size.");
''', '''    const size_t nbytes = nrow * ncol * sizeof(double);
    const bool fits = kbase::filesize(datafn.c_str()) == nbytes;
    if (!fits) {
        fprintf(stderr, "Bad size\\n");
        exit(EXIT_FAILURE);
    }
''')]
