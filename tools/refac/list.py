# name -> list of (file, old, new)
R = {}
R['r1_helper_nearest'] = [('libman/kmeans_thread.cpp','''void kmeans_thread::EM_step() {''','''namespace {
unsigned nearest_center(const double* row, const std::vector<double>& means,
        const unsigned nclust, const size_t ncol, const kbase::dist_t metric) {
    unsigned id = kbase::INVALID_CLUSTER_ID;
    double lowest = std::numeric_limits<double>::max();
    for (unsigned c = 0; c < nclust; ++c) {
        const double d = kbase::dist_comp_raw<double>(row, &means[c*ncol], ncol, metric);
        if (lowest > d) {
            lowest = d;
            id = c;
        }
    }
    return id;
}
}

void kmeans_thread::EM_step() {'''),('libman/kmeans_thread.cpp','''        unsigned asgnd_clust = kbase::INVALID_CLUSTER_ID;
        double best, dist;
        dist = best = std::numeric_limits<double>::max();

        for (unsigned clust_idx = 0;
                clust_idx < g_clusters->get_nclust(); clust_idx++) {
            dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],
                    &(g_clusters->get_means()[clust_idx*ncol]), ncol,
                    dist_metric);

            if (dist < best) {
                best = dist;
                asgnd_clust = clust_idx;
            }
        }
''','''        const unsigned asgnd_clust = nearest_center(&local_data[row*ncol],
                g_clusters->get_means(), g_clusters->get_nclust(), ncol, dist_metric);
''')]
R['r2_while_scan'] = [('libman/kmeans_thread.cpp','''        for (unsigned clust_idx = 0;
                clust_idx < g_clusters->get_nclust(); clust_idx++) {
            dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],
                    &(g_clusters->get_means()[clust_idx*ncol]), ncol,
                    dist_metric);

            if (dist < best) {
                best = dist;
                asgnd_clust = clust_idx;
            }
        }
''','''        const double* sample = &local_data[row*ncol];
        const unsigned nclust = g_clusters->get_nclust();
        unsigned clust_idx = 0;
        while (clust_idx < nclust) {
            dist = kbase::dist_comp_raw<double>(sample,
                    g_clusters->get_means().data() + clust_idx*ncol, ncol,
                    dist_metric);
            const unsigned here = clust_idx++;
            if (!(dist < best))
                continue;
            best = dist;
            asgnd_clust = here;
        }
''')]
R['r3_update_split'] = [('libman/kmeans_coordinator.cpp','''    for (thread_iter it = threads.begin(); it != threads.end(); ++it) {
        // Updated the changed cluster count
        num_changed += (*it)->get_num_changed();
        // Summation for cluster centers

        cltrs->peq((*it)->get_local_clusters());
    }

    unsigned chk_nmemb = 0;
    for (unsigned clust_idx = 0; clust_idx < k; clust_idx++) {
        cltrs->finalize(clust_idx);
        cluster_assignment_counts[clust_idx] =
            cltrs->get_num_members(clust_idx);
        chk_nmemb += cluster_assignment_counts[clust_idx];
    }
''','''    for (auto const& th : threads)
        cltrs->peq(th->get_local_clusters());

    for (size_t i = 0; i < threads.size(); ++i)
        num_changed += threads[i]->get_num_changed();

    cltrs->finalize_all();

    unsigned chk_nmemb = 0;
    for (unsigned clust_idx = 0; clust_idx < k; clust_idx++) {
        const auto members = cltrs->get_num_members(clust_idx);
        cluster_assignment_counts[clust_idx] = members;
        chk_nmemb += members;
    }
''')]
R['r4_run_for'] = [('libman/kmeans_coordinator.cpp','''    bool converged = false;
    size_t iter = 0;

    if (max_iters > 0)
        iter++;

    while (iter <= max_iters && max_iters > 0) {
        if (iter == 1)
            clear_cluster_assignments();

        wake4run(EM);''','''    bool converged = false;
    size_t iter;

    if (max_iters > 0)
        clear_cluster_assignments();

    for (iter = 1; iter <= max_iters; iter++) {
        wake4run(EM);'''),('libman/kmeans_coordinator.cpp','''            converged = true;
            break;
        }
        iter++;
    }''','''            converged = true;
            break;
        }
    }''')]
R['r4b_flag'] = [('libman/kmeans_coordinator.cpp','''    while (iter <= max_iters && max_iters > 0) {
        if (iter == 1)''','''    while (!converged && iter <= max_iters && max_iters > 0) {
        if (iter == 1)'''),('libman/kmeans_coordinator.cpp','''        if (num_changed == 0 ||
                ((num_changed/(double)nrow)) <= tolerance) {
            converged = true;
            break;
        }
        iter++;
    }''','''        const double changed = static_cast<double>(num_changed) / nrow;
        converged = num_changed == 0 || changed <= tolerance;
        if (!converged)
            iter++;
    }''')]
R['r5_wake_range'] = [('libman/coordinator.cpp','''    pending_threads = nthreads;
    for (unsigned thd_id = 0; thd_id < threads.size(); thd_id++) {
        threads[thd_id]->set_parent_mutex(&mutex);
        threads[thd_id]->wake(state);
    }
''','''    for (auto const& th : threads)
        th->set_parent_mutex(&mutex);

    pending_threads = nthreads;
    for (thread_iter it = threads.begin(); it != threads.end(); ++it)
        (*it)->wake(state);
''')]
R['r6_report'] = [('libman/thread.cpp','''    (*parent_pending_threads)--;
    set_thread_state(WAIT);

    if (*parent_pending_threads == 0) {
        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
        if (rc) perror("pthread_cond_signal");
    }
''','''    set_thread_state(WAIT);
    const bool last = --(*parent_pending_threads) == 0;

    if (last) {
        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
        if (rc)
            perror("pthread_cond_signal");
    }
''')]
R['r7_request'] = [('libman/task_thread.cpp','''    if (tasks->has_task()) {
        // Grab''','''    const bool more = tasks->has_task();
    if (!more) {
        sleep();
        rc = pthread_mutex_unlock(&mutex);
        if (rc) perror("pthread_mutex_unlock");
        return;
    }

    {
        // Grab'''),('libman/task_thread.cpp','''#if 0
    else {
        if (try_steal_task())
            // Try to steal
        }
#else
    else {
        sleep();
        pthread_mutex_unlock(&mutex);
    }
#endif
''','')]
R['r8_refs'] = [('libman/kmeans_task_thread.cpp','''            recalculated_v->set(true_row_id, false);
            dist_v[true_row_id] +=
                g_clusters->get_prev_dist(cluster_assignments[true_row_id]);

            if (dist_v[true_row_id] <=
                    g_clusters->get_s_val(cluster_assignments[true_row_id])) {
                // Skip all rows
            } else {
                for (unsigned clust_idx = 0;
                        clust_idx < g_clusters->get_nclust(); clust_idx++) {

                    if (dist_v[true_row_id] <= dm->get(cluster_assignments
                                [true_row_id], clust_idx)) {
                        // Skip this cluster
                        continue;
                    }
''','''            recalculated_v->set(true_row_id, false);
            double& bound = dist_v[true_row_id];
            unsigned& mine = cluster_assignments[true_row_id];
            bound += g_clusters->get_prev_dist(mine);

            if (bound > g_clusters->get_s_val(mine)) {
                const unsigned nclust = g_clusters->get_nclust();
                for (unsigned clust_idx = 0; clust_idx < nclust; clust_idx++) {

                    if (bound <= dm->get(mine, clust_idx)) {
                        // Skip this cluster
                        continue;
                    }
''')]
R['r9_finalize'] = [('libkcommon/clusters.cpp','''    if (num_members_v[idx] > 1) { // Less than 2 is the same result
        for (unsigned i = 0; i < ncol; i++) {
            means[(idx*ncol)+i] /= double(num_members_v[idx]);
        }
    }
    complete_v[idx] = true;''','''    complete_v[idx] = true;
    const double n = num_members_v[idx];
    if (n <= 1) // Less than 2 is the same result
        return;
    double* mean = &means[idx*ncol];
    for (unsigned i = 0; i < ncol; i++)
        mean[i] = mean[i] / n;''')]
R['r10_dm'] = [('libkcommon/dist_matrix.cpp','''    for (unsigned i = 0; i < cls->get_nclust(); i++) {
        for (unsigned j = i+1; j < cls->get_nclust(); j++) {
            double dist = knor::base::eucl_dist(&(cls->get_means()[i*ncol]),
                    &(cls->get_means()[j*ncol]), ncol) / 2.0;
            set(i,j, dist);

            // Set s(x) for each cluster
            if (dist < cls->get_s_val(i)) {
                cls->set_s_val(dist, i);
            }

            if (dist < cls->get_s_val(j)) {
                cls->set_s_val(dist, j);
            }
        }
    }''','''    const unsigned nclust = cls->get_nclust();
    const double* means = &(cls->get_means()[0]);
    for (unsigned i = 0; i + 1 < nclust; i++) {
        for (unsigned j = i+1; j < nclust; j++) {
            const double half = 0.5 * knor::base::eucl_dist(means + i*ncol,
                    means + j*ncol, ncol);
            // Set s(x) for each cluster
            cls->set_s_val(std::min(half, cls->get_s_val(i)), i);
            cls->set_s_val(std::min(half, cls->get_s_val(j)), j);
            set(i, j, half);
        }
    }'''),('libkcommon/dist_matrix.cpp','#include "dist_matrix.hpp"','#include "dist_matrix.hpp"\n#include <algorithm>')]
R['r11_tid'] = [('libauto/kmeans.cpp','''        if (asgnd_clust != cluster_assignments[row]) {
#ifdef _OPENMP
            pt_num_change[omp_get_thread_num()]++;
#else
            pt_num_change[0]++;
#endif
        }
        cluster_assignments[row] = asgnd_clust;
#ifdef _OPENMP
        pt_cl[omp_get_thread_num()]->add_member(
                &matrix[row*NUM_COLS], asgnd_clust);
#else
        pt_cl[0]->add_member(&matrix[row*NUM_COLS], asgnd_clust);
#endif
''','''#ifdef _OPENMP
        const int tid = omp_get_thread_num();
#else
        const int tid = 0;
#endif
        pt_cl[tid]->add_member(&matrix[row*NUM_COLS], asgnd_clust);
        if (cluster_assignments[row] != asgnd_clust)
            pt_num_change[tid] += 1;
        cluster_assignments[row] = asgnd_clust;
''')]
R['r12_sk_for'] = [('libman/skmeans_coordinator.cpp','''    while (iter <= max_iters && max_iters > 0) {
        if (iter == 1)
            clear_cluster_assignments();
''','''    for (; max_iters > 0 && iter <= max_iters; iter++) {
        if (iter == 1)
            clear_cluster_assignments();
'''),('libman/skmeans_coordinator.cpp','''            converged = true;
            break;
        }
        iter++;
    }''','''            converged = true;
            break;
        }
    }''')]
R['r13_fcm'] = [('libman/fcm_coordinator.cpp','''    size_t iter = 0;

    if (max_iters > 0)
        iter++;

    while (iter <= max_iters && max_iters > 0) {''','''    size_t iter = 1;

    for (iter = 1; iter <= max_iters; iter++) {'''),('libman/fcm_coordinator.cpp','''        if (frob_norm < tolerance) {
            converged = true;
            delete (diff);
            break;
        }

        delete (diff);
        iter++;
''','''        delete (diff);

        if (frob_norm < tolerance) {
            converged = true;
            break;
        }
''')]
R['r14_medoid'] = [('libman/medoid.cpp','''        if (asgnd_clust != cluster_assignments[true_rid])
            meta.num_changed++;

        // Add to the cluster energy
        local_medoid_energy[asgnd_clust] += best;

        cluster_assignments[true_rid] = asgnd_clust;

        // We only need the cluster membership count
        // We don't update the global cltrs with these numbers
        local_clusters->num_members_peq(1, asgnd_clust);
''','''        // We only need the cluster membership count
        // We don't update the global cltrs with these numbers
        local_clusters->num_members_peq(1, asgnd_clust);

        // Add to the cluster energy
        local_medoid_energy[asgnd_clust] += best;

        unsigned& mine = cluster_assignments[true_rid];
        if (mine != asgnd_clust) {
            mine = asgnd_clust;
            ++meta.num_changed;
        }
''')]
R['r15_mb'] = [('libman/kmeans_task_coordinator.cpp','''    for (size_t rid = 0; rid < nrow; rid++) {
        auto cid = cluster_assignments[rid];
        if (cid != base::INVALID_CLUSTER_ID) // Skip those not sampled
            v[cid]++;
    }

    // Fine at O(k)
    for (size_t cid = 0; cid < k; cid++)
        v[cid] = 1.0/v[cid];
''','''    for (auto const& cid : cluster_assignments) {
        if (cid == base::INVALID_CLUSTER_ID)
            continue; // Skip those not sampled
        v[cid] += 1;
    }

    // Fine at O(k)
    for (auto& x : v)
        x = 1.0/x;
''')]
R['r16_hoist'] = [('libman/kmeans_task_coordinator.cpp','''        printf("Clearing because of init ..\\n");
#endif
        cltrs->set_prev_means();
        cltrs->clear();
    } else {
        cltrs->set_prev_means();
        cltrs->unfinalize_all();
    }''','''        printf("Clearing because of init ..\\n");
#endif
    }

    cltrs->set_prev_means();
    if (!prune_init)
        cltrs->unfinalize_all();
    else
        cltrs->clear();''')]
R['r18_dist_for'] = [('libdist/dist_coordinator.cpp','''    while (iters < max_iters && max_iters > 0) {
        if (iters == 0)
            clear_cluster_assignments();
''','''    if (max_iters > 0)
        clear_cluster_assignments();

    for (; iters < max_iters; iters++) {
'''),('libdist/dist_coordinator.cpp','''        nchanged = 0;
        iters++;
    }
''','''        nchanged = 0;
    }
''')]
R['r20_callback'] = [('libman/thread.hpp','''        if (t->get_state() == knor::EXIT) {// No more work to do
            break;
        }
        t->run(); // else
    }
''','''        const bool leave = t->get_state() == knor::EXIT; // No more work to do
        if (!leave)
            t->run();
        else
            break;
    }
''')]
R['r21_kmspp_for'] = [('libman/kmeans_coordinator.cpp','''    while (true) {
        set_thread_clust_idx(clust_idx); // Set the current cluster index
        wake4run(KMSPP_INIT); // Run || distance comp to clust_idx
        wait4complete();
        double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists

        cuml_dist = cuml_dist * ur_distribution(generator);
        if (++clust_idx >= k)  // No more centers needed
            break;
''','''    for (clust_idx = 1; ; clust_idx++) {
        set_thread_clust_idx(clust_idx - 1); // Set the current cluster index
        wake4run(KMSPP_INIT); // Run || distance comp to clust_idx
        wait4complete();
        double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists

        cuml_dist *= ur_distribution(generator);
        if (clust_idx == k)  // No more centers needed
            break;
''')]
R['r22_sleep_helper'] = [('libman/kmeans_thread.cpp','''void kmeans_thread::run() {
    switch(state) {
        case TEST:
            test();
            break;
        case ALLOC_DATA:
            numa_alloc_mem();
            break;
        case KMSPP_INIT:
            kmspp_dist();
            break;
        case EM: /*E step of kmeans*/
            EM_step();
            break;
        case EXIT:
            throw kbase::thread_exception(
                    "Thread state is EXIT but running!\\n");
        default:
            throw kbase::thread_exception("Unknown thread state\\n");
    }
    sleep();
''','''void kmeans_thread::run() {
    if (state == EM) { /*E step of kmeans*/
        EM_step();
    } else if (state == KMSPP_INIT) {
        kmspp_dist();
    } else if (state == ALLOC_DATA) {
        numa_alloc_mem();
    } else if (state == TEST) {
        test();
    } else if (state == EXIT) {
        throw kbase::thread_exception(
                "Thread state is EXIT but running!\\n");
    } else {
        throw kbase::thread_exception("Unknown thread state\\n");
    }
    sleep();
''')]
R['r24_sizes'] = [('libman/kmeans_task_coordinator.cpp','''    cluster_assignment_counts.assign(k, 0);
    for (auto const& cid : cluster_assignments)
        cluster_assignment_counts[cid]++;

    gettimeofday''','''    std::fill(cluster_assignment_counts.begin(), cluster_assignment_counts.end(), 0);
    for (size_t row = 0; row < nrow; row++)
        ++cluster_assignment_counts[cluster_assignments[row]];

    gettimeofday''')]
R['r25_wait'] = [('libman/coordinator.cpp','''    while (pending_threads != 0) {
        pthread_cond_wait(&cond, &mutex);
    }
''','''    for (;;) {
        if (!pending_threads)
            break;
        pthread_cond_wait(&cond, &mutex);
    }
''')]
R['r26_waitworker'] = [('libman/thread.cpp','''    while (state == WAIT) {
        //printf("Thread %d begin cond_wait\\n", thd_id);
        rc = pthread_cond_wait(&cond, &mutex);
        if (rc) perror("pthread_cond_wait");
    }
''','''    while (get_state() == knor::thread_state_t::WAIT)
        if ((rc = pthread_cond_wait(&cond, &mutex)))
            perror("pthread_cond_wait");
''')]
R['r27_rows_ptr'] = [('libman/kmeans_thread.cpp','''        if (asgnd_clust != cluster_assignments[true_row_id])
            meta.num_changed++;

        cluster_assignments[true_row_id] = asgnd_clust;
        local_clusters->add_member(&local_data[row*ncol], asgnd_clust);
''','''        local_clusters->add_member(local_data + (row*ncol), asgnd_clust);

        const unsigned before = cluster_assignments[true_row_id];
        cluster_assignments[true_row_id] = asgnd_clust;
        meta.num_changed += (before == asgnd_clust) ? 0 : 1;
''')]
R['r28_phase_helper'] = [('libman/kmeans_coordinator.cpp','''void kmeans_coordinator::update_clusters() {''','''static void merge(std::vector<std::shared_ptr<thread> >& workers,
        kbase::clusters::ptr into, size_t& changed) {
    for (auto const& w : workers) {
        changed += w->get_num_changed();
        into->peq(w->get_local_clusters());
    }
}

void kmeans_coordinator::update_clusters() {'''),('libman/kmeans_coordinator.cpp','''    for (thread_iter it = threads.begin(); it != threads.end(); ++it) {
        // Updated the changed cluster count
        num_changed += (*it)->get_num_changed();
        // Summation for cluster centers

        cltrs->peq((*it)->get_local_clusters());
    }
''','''    merge(threads, cltrs, num_changed);
''')]
R['r29_task_phase'] = [('libman/kmeans_task_coordinator.cpp','''        if (num_changed == 0 ||
                ((num_changed/(double)nrow)) <= tolerance) {
            converged = true;
            break;
        } else {
            num_changed = 0;
        }
        iter++;
    }''','''        const size_t changed = num_changed;
        num_changed = 0;
        if (!changed || changed/(double)nrow <= tolerance) {
            converged = true;
            break;
        }
        ++iter;
    }''')]
R['r30_peq'] = [('libkcommon/clusters.cpp','''    assert(rhs->size() == size());
    for (unsigned i = 0; i < size(); i++)
        this->means[i] += rhs->get(i);

    for (unsigned idx = 0; idx < nclust; idx++)
        num_members_peq(rhs->get_num_members(idx), idx);
}

void clusters::means''','''    assert(rhs->size() == size());
    for (unsigned idx = 0; idx < nclust; idx++) {
        num_members_v[idx] += rhs->get_num_members(idx);
        for (unsigned col = 0; col < ncol; col++)
            means[idx*ncol + col] += rhs->get(idx*ncol + col);
    }
}

void clusters::means''')]
