R={}
F='libdist/dist_coordinator.cpp'
R['u01_share']=[(F,'''        kmpi::mpi::allgather_double(&dist_v[0],
                &g_dist_v[0], g_nrow/nprocs);''','''        const size_t share = g_nrow / nprocs;
        kmpi::mpi::allgather_double(dist_v.data(), g_dist_v.data(), share);'''),
(F,'''        if (g_nrow % nprocs) {
            const size_t tail_idx = (g_nrow/nprocs);
            const size_t numel = (g_nrow % nprocs);
''','''        const size_t numel = g_nrow % nprocs;
        if (numel > 0) {
            const size_t tail_idx = share;
''')]
R['u02_conv']=[(F,'''    while (iters < max_iters && max_iters > 0) {
        if (iters == 0)
            clear_cluster_assignments();''','''    while (!converged && iters < max_iters) {
        if (iters == 0)
            clear_cluster_assignments();'''),
(F,'''            converged = true;
            if (mpi_rank == root)
#ifndef BIND
                printf("Algorithm converged in %lu iterations!\\n", (++iters));
#endif
            break;
        }

        nchanged = 0;
        iters++;''','''            converged = true;
            if (mpi_rank == root)
#ifndef BIND
                printf("Algorithm converged in %lu iterations!\\n", (++iters));
#endif
        } else {
            nchanged = 0;
            iters++;
        }''')]
R['u03_helper']=[(F,'''        kmpi::mpi::reduce_double(&(cltrs_ptr->get_means()[0]),
                clstr_buff, cltrs_ptr->size());

        // nmemb_buff has agg of all procs diff on membership count
        kmpi::mpi::reduce_llong_t(&(cltrs_ptr->get_num_members_v()[0]),
                nmemb_buff, cltrs_ptr->get_num_members_v().size());
        cltrs_ptr->set_mean(clstr_buff);
        cltrs_ptr->set_num_members_v(nmemb_buff);
''','''        merge_global(clstr_buff, nmemb_buff);
'''),(F,'''void dist_coordinator::run(kbase::cluster_t& ret,''','''void dist_coordinator::merge_global(double* mbuf, size_t* cbuf) {
    kbase::clusters::ptr cl = get_gcltrs();
    kmpi::mpi::reduce_llong_t(&(cl->get_num_members_v()[0]), cbuf, k);
    cl->set_num_members_v(cbuf);
    kmpi::mpi::reduce_double(&(cl->get_means()[0]), mbuf, cl->size());
    cl->set_mean(mbuf);
}

void dist_coordinator::run(kbase::cluster_t& ret,'''),('libdist/dist_coordinator.hpp','''    void shift_thread_start_rid();''','''    void shift_thread_start_rid();
        void merge_global(double* mbuf, size_t* cbuf);''')]
R['u04_gather']=[(F,"""            std::copy(local_assignments, local_assignments+get_nrow(),
                    assignments.begin());

            for (int pid = 1; pid < int(nprocs); pid++) {
                // Account for an uneven # of rows per process
                unsigned count;
                if (pid == (nprocs - 1))
                    count = get_nrow() + (g_nrow % nprocs);
                else
                    count = get_nrow();

                int rc = MPI_Recv(&assignments[pid*(g_nrow/nprocs)],
                        count, MPI::UNSIGNED, pid,
                        0, MPI_COMM_WORLD, MPI_STATUS_IGNORE);""","""            std::copy(local_assignments, local_assignments+get_nrow(),
                    assignments.begin());

            const size_t share = g_nrow / nprocs;
            const int last = int(nprocs) - 1;
            int pid = 1;
            while (pid <= last) {
                const size_t count = share + (pid == last ? g_nrow % nprocs : 0);
                int rc = MPI_Recv(assignments.data() + share * pid,
                        count, MPI::UNSIGNED, pid,
                        0, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
                pid++;""")]
G='libdist/dist_task_coordinator.cpp'
R['u05_branch']=[(G,"""        if (iters == 0) {
            cltrs_ptr->set_mean(clstr_buff);
            cltrs_ptr->set_num_members_v(nmemb_buff);
        } else {
            // Get the prev univ clusters""","""        const bool first = iters == 0;
        if (first) {
            cltrs_ptr->set_num_members_v(nmemb_buff);
            cltrs_ptr->set_mean(clstr_buff);
        }
        if (!first) {
            // Get the prev univ clusters"""),(G,"""            cltrs_ptr->means_peq(clstr_buff);
            cltrs_ptr->num_members_v_peq(nmemb_buff);""","""            cltrs_ptr->num_members_v_peq(nmemb_buff);
            cltrs_ptr->means_peq(clstr_buff);""")]
R['u06_vec']=[(F,"""    double* clstr_buff = new double[k*ncol];
    size_t* nmemb_buff = new size_t[k];
""","""    std::vector<double> clstr_store(k*ncol);
    std::vector<size_t> nmemb_store(k);
    double* clstr_buff = clstr_store.data();
    size_t* nmemb_buff = nmemb_store.data();
"""),(F,"""    delete [] clstr_buff;
    delete [] nmemb_buff;
""","")]
R['u07_neg']=[(F,"""        if (nchanged == 0 || perc_changed <= tolerance) {""","""        const bool done = !(nchanged > 0 && perc_changed > tolerance);
        if (done) {""")]
R['u08_last']=[(F,"""            if (mpi_rank == nprocs - 1)
                std::copy(&dist_v[tail_idx], &dist_v[tail_idx+numel],
                        &g_dist_v[g_nrow-numel]);""","""            const bool last = mpi_rank + 1 == nprocs;
            if (last) {
                double* out = &g_dist_v[g_nrow-numel];
                for (size_t i = 0; i < numel; i++)
                    out[i] = dist_v[tail_idx + i];
            }""")]
R['u09_islocal']=[(F,"""    size_t rid = global_rid - (mpi_rank * (g_nrow / nprocs));
    if (rid >= this->nrow)
        return false;
    return true;""","""    const size_t first = mpi_rank * (g_nrow / nprocs);
    return global_rid >= first && global_rid - first < this->nrow;""")]
R['u10_kppinv']=[(F,"""                if (is_local(row)) {
                    cltrs->set_mean(get_thd_data(local_rid(row)), clust_idx);
                    cluster_assignments[local_rid(row)] = clust_idx;
                } else {
                    cltrs->clear();
                }""","""                if (!is_local(row)) {
                    cltrs->clear();
                } else {
                    const size_t lid = local_rid(row);
                    cluster_assignments[lid] = clust_idx;
                    cltrs->set_mean(get_thd_data(lid), clust_idx);
                }""")]
R['u11_shift']=[(F,"""    size_t c = 0;
    for (thread_iter it = threads.begin(); it != threads.end(); ++it) {
        size_t shift = (*it)->get_start_rid() - ((g_nrow / nprocs) * mpi_rank);""","""    size_t c = 0;
    const size_t first = (g_nrow / nprocs) * mpi_rank;
    for (thread_iter it = threads.begin(); it != threads.end(); ++it) {
        const size_t shift = (*it)->get_start_rid() - first;""")]
R['u12_branchdt']=[(G,"""        for (unsigned c = 0; c < k; c++) {
            cltrs_ptr->finalize(c);
            cltrs_ptr->set_prev_dist(""","""        cltrs_ptr->finalize_all();
        for (unsigned c = 0; c < k; c++) {
            cltrs_ptr->set_prev_dist(""")]
