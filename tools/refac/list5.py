R={}
C='libman/coordinator.cpp'
OLD='''    unsigned rows_per_thread = nrow / nthreads;
    unsigned start_rid = (thd_id*rows_per_thread);

    if (thd_id == nthreads - 1)
        rows_per_thread += nrow % nthreads;
    return std::pair<unsigned, unsigned>(start_rid, rows_per_thread);
'''
R['v01_lastrest']=[(C,OLD,'''    const unsigned share = nrow / nthreads;
    const unsigned first = thd_id * share;
    const bool last = (thd_id + 1 == nthreads);
    return std::make_pair(first, last ? (unsigned)(nrow - first) : share);
''')]
R['v02_mod']=[(C,OLD,'''    unsigned start_rid = thd_id * (nrow / nthreads);
    unsigned rows_per_thread = nrow / nthreads +
        (thd_id == nthreads - 1 ? nrow % nthreads : 0);
    std::pair<unsigned, unsigned> ret;
    ret.first = start_rid;
    ret.second = rows_per_thread;
    return ret;
''')]
R['v03_lookup']=[(C,'''    unsigned parent_thd = std::upper_bound(thd_max_row_idx.begin(),
            thd_max_row_idx.end(), row_id) - thd_max_row_idx.begin();
    unsigned rows_per_thread = nrow/nthreads; // All but the last thread

    return &((threads[parent_thd]->get_local_data())
            [(row_id-(parent_thd*rows_per_thread))*ncol]);
''','''    const size_t share = nrow / nthreads; // All but the last thread
    auto pos = std::upper_bound(thd_max_row_idx.cbegin(),
            thd_max_row_idx.cend(), row_id);
    const size_t owner = std::distance(thd_max_row_idx.cbegin(), pos);
    const size_t offset = (row_id - owner * share) * ncol;

    return threads[owner]->get_local_data() + offset;
''')]
K='libman/kmeans_thread.cpp'
R['v04_startrange']=[(K,'''    for (unsigned row = 0; row < nprocrows; row++) {
        unsigned true_row_id = get_global_data_id(row);

        double dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],''','''    const unsigned end_rid = start_rid + nprocrows;
    for (unsigned true_row_id = start_rid; true_row_id < end_rid;
            ++true_row_id) {
        const unsigned row = true_row_id - start_rid;
        double dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],''')]
R['v05_ptrwalk']=[(K,'''    for (unsigned row = 0; row < nprocrows; row++) {
        unsigned true_row_id = get_global_data_id(row);

        double dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],''','''    const double* sample = local_data;
    for (unsigned row = 0; row < nprocrows; row++, sample += ncol) {
        unsigned true_row_id = get_global_data_id(row);

        double dist = kbase::dist_comp_raw<double>(sample,''')]
Q='libman/task_queue.hpp'
OQ='''            if ((curr_rid + MIN_TASK_ROWS) < (get_nrow()-1)) {
                t->set_nrow(MIN_TASK_ROWS);
                curr_rid += MIN_TASK_ROWS;
                return t;
            } else {
                t->set_nrow(get_nrow()-curr_rid);
                curr_rid = get_nrow()-1;
                _has_task = false;
            }
            assert(t->get_nrow() > 0);
            return t;
'''
R['v06_task_inv']=[(Q,OQ,'''            const unsigned left = get_nrow() - curr_rid;
            const bool last = left <= MIN_TASK_ROWS + 1;
            if (last) {
                t->set_nrow(left);
                curr_rid = get_nrow()-1;
                _has_task = false;
            } else {
                t->set_nrow(MIN_TASK_ROWS);
                curr_rid += MIN_TASK_ROWS;
            }
            assert(t->get_nrow() > 0);
            return t;
''')]
R['v07_task_len']=[(Q,OQ,'''            unsigned len = get_nrow() - curr_rid;
            if (len - 1 > MIN_TASK_ROWS) {
                len = MIN_TASK_ROWS;
                curr_rid = curr_rid + len;
            } else {
                _has_task = false;
                curr_rid = get_nrow()-1;
            }
            t->set_nrow(len);
            assert(t->get_nrow() > 0);
            return t;
''')]
T='libman/thread.cpp'
R['v08_load']=[(T,'''    fseek(f, start_rid*ncol*sizeof(double), SEEK_SET); // start position
#ifdef NDEBUG
    size_t nread = fread(local_data, blob_size, 1, f);
    nread = nread + 1 - 1; // Silence compiler warning
#else
    assert(fread(local_data, blob_size, 1, f) == 1);
#endif
''','''    const long offset = (long)(sizeof(double) * ncol * start_rid);
    if (fseek(f, offset, SEEK_SET))
        throw base::io_exception("fseek() failed!");
    const size_t nread = fread(local_data, blob_size, 1, f);
    assert(nread == 1);
    (void) nread;
''')]
R['v09_ptr']=[(T,'''    if (offset)
        local_data = &(data[start_rid*ncol]); // Grab your offset
    else
        local_data = data;
''','''    local_data = data;
    if (offset)
        local_data += start_rid*ncol; // Grab your offset
''')]
KC='libman/kmeans_coordinator.cpp'
R['v10_build']=[(KC,'''    unsigned thds_row = nrow / nthreads;
    for (unsigned thd_id = 0; thd_id < nthreads; thd_id++) {
        std::pair<unsigned, unsigned> tup = get_rid_len_tup(thd_id);
        thd_max_row_idx.push_back((thd_id*thds_row) + tup.second);
        threads.push_back(kmeans_thread::create((thd_id % nnodes),
                    thd_id, tup.first, tup.second,
                    ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
        threads[thd_id]->set_parent_cond(&cond);
        threads[thd_id]->set_parent_pending_threads(&pending_threads);
        threads[thd_id]->start(WAIT); // Thread puts itself to sleep
    }
''','''    for (unsigned thd_id = 0; thd_id < nthreads; thd_id++) {
        const auto tup = get_rid_len_tup(thd_id);
        const unsigned first = tup.first, len = tup.second;
        auto thd = kmeans_thread::create((thd_id % nnodes), thd_id, first, len,
                ncol, cltrs, cluster_assignments.data(), fn, _dist_t);
        thd->set_parent_cond(&cond);
        thd->set_parent_pending_threads(&pending_threads);
        threads.push_back(thd);
        thd_max_row_idx.push_back(first + len);
        threads.back()->start(WAIT); // Thread puts itself to sleep
    }
''')]
D='libdist/dist_coordinator.cpp'
R['v11_distinit']=[(D,'''    if (mpi_rank == (nprocs - 1)) // The last proc always has more
        return (g_nrow / nprocs) + (g_nrow % nprocs);
    else
        return (g_nrow / nprocs);
''','''    size_t share = g_nrow / nprocs;
    if (mpi_rank + 1 == nprocs) // The last proc always has more
        share = g_nrow - share * (nprocs - 1);
    return share;
'''),(D,'''        for (thread_iter it = threads.begin(); it < threads.end(); ++it)
            (*it)->set_start_rid((*it)->get_start_rid()
                    + (nrow / nprocs) * mpi_rank);
''','''        const size_t shift = global_rid(0);
        for (auto thd : threads)
            thd->set_start_rid(shift + thd->get_start_rid());
''')]
F='libman/fcm.cpp'
R['v12_fcmM']=[(F,'''    for (unsigned lcid = start_rid; lcid < start_rid+nprocrows; lcid++) {
        unsigned rrid = lcid - start_rid;
        for (unsigned lrid''','''    for (unsigned rrid = 0; rrid < nprocrows; rrid++) {
        const unsigned lcid = get_global_data_id(rrid);
        for (unsigned lrid''')]
M='libman/medoid.cpp'
R['v13_medwhile']=[(M,'''    for (unsigned row = 0; row < nprocrows; row++) {
        // Sample a few cluster members
        if (ur_distribution(generator) > sample_rate)
            continue;
''','''    unsigned next = 0;
    while (next < nprocrows) {
        const unsigned row = next++;
        // Sample a few cluster members
        if (ur_distribution(generator) > sample_rate)
            continue;
''')]
KT='libman/kmeans_task_thread.cpp'
R['v14_mbsel']=[(KT,'''        unsigned true_row_id = get_global_data_id(row);

        mb_selected.push_back(true_row_id - start_rid); // Local rid
''','''        const unsigned true_row_id = curr_task->get_start_rid() + row;
        const unsigned lrid = true_row_id - start_rid;
        mb_selected.push_back(lrid); // Local rid
''')]
TT='libman/task_thread.cpp'
R['v15_req']=[(TT,'''    if (tasks->has_task()) {
        // Grab another task but drop the old task
        if (curr_task)
            delete curr_task;
''','''    const bool more = tasks->has_task();
    if (more) {
        // Grab another task but drop the old task
        delete curr_task;
''')]
R['v16_downloop']=[(K,'''    for (unsigned row = 0; row < nprocrows; row++) {
        unsigned true_row_id = get_global_data_id(row);

        double dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],''','''    for (unsigned left = nprocrows; left > 0; left--) {
        const unsigned row = nprocrows - left;
        unsigned true_row_id = get_global_data_id(row);

        double dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],''')]
R['v17_shift']=[(D,'''        size_t shift = (*it)->get_start_rid() - ((g_nrow / nprocs) * mpi_rank);''','''        size_t shift = (*it)->get_start_rid() - global_rid(0);''')]
R['v18_lookupmin']=[(C,'''    unsigned parent_thd = std::upper_bound(thd_max_row_idx.begin(),
            thd_max_row_idx.end(), row_id) - thd_max_row_idx.begin();
    unsigned rows_per_thread = nrow/nthreads; // All but the last thread
''','''    unsigned rows_per_thread = nrow/nthreads; // All but the last thread
    unsigned parent_thd = std::min<unsigned>(row_id / rows_per_thread,
        nthreads - 1);
''')]
