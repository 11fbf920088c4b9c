# mixed edits of the drivers and workers, for every property
KT = 'libman/kmeans_thread.cpp'
TT = 'libman/kmeans_task_thread.cpp'
KC = 'libman/kmeans_coordinator.cpp'
CO = 'libman/coordinator.cpp'
R = {}
R['aa01_nearest'] = [(KT, '''void kmeans_thread::EM_step() {
''', '''static unsigned nearest_center(const double* row, const double* means,
        const unsigned nclust, const unsigned ncol,
        const kbase::dist_t metric) {
    unsigned nearest = kbase::INVALID_CLUSTER_ID;
    double least = std::numeric_limits<double>::max();
    for (unsigned c = 0; c < nclust; c++) {
        const double d = kbase::dist_comp_raw<double>(row, means + c*ncol,
                ncol, metric);
        if (least > d) {
            nearest = c;
            least = d;
        }
    }
    return nearest;
}

void kmeans_thread::EM_step() {
'''), (KT, '''        unsigned asgnd_clust = kbase::INVALID_CLUSTER_ID;
        double best, dist;
        dist = best = std::numeric_limits<double>::max();

        for (unsigned clust_idx = 0;
                clust_idx < g_clusters->get_nclust(); clust_idx++) {
            dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],
                    &(g_clusters->get_means()[clust_idx*ncol]), ncol,
                    dist_metric);

            if (dist < best) {
                best = dist;
                asgnd_clust = clust_idx;
            }
        }

''', '''        const unsigned asgnd_clust = nearest_center(&local_data[row*ncol],
                &(g_clusters->get_means()[0]), g_clusters->get_nclust(), ncol,
                dist_metric);

''')]
R['aa02_change'] = [(KT, '''        if (asgnd_clust != cluster_assignments[true_row_id])
            meta.num_changed++;

        cluster_assignments[true_row_id] = asgnd_clust;
''', '''        unsigned& mine = cluster_assignments[true_row_id];
        if (mine != asgnd_clust) {
            mine = asgnd_clust;
            meta.num_changed += 1;
        }
''')]
R['aa03_update'] = [(KC, '''    for (thread_iter it = threads.begin(); it != threads.end(); ++it) {
        // Updated the changed cluster count
        num_changed += (*it)->get_num_changed();
        // Summation for cluster centers

        cltrs->peq((*it)->get_local_clusters());
    }
''', '''    size_t changed = 0;
    for (auto const& worker : threads) {
        cltrs->peq(worker->get_local_clusters());
        changed += worker->get_num_changed();
    }
    num_changed = changed;
'''), (KC, '''    num_changed = 0; // Always reset here since there's no pruning
    cltrs->clear();
''', '''    cltrs->clear();
''')]
R['aa04_range'] = [(CO, '''    unsigned rows_per_thread = nrow / nthreads;
    unsigned start_rid = (thd_id*rows_per_thread);

    if (thd_id == nthreads - 1)
        rows_per_thread += nrow % nthreads;
    return std::pair<unsigned, unsigned>(start_rid, rows_per_thread);
''', '''    const unsigned share = nrow / nthreads;
    const unsigned start_rid = share * thd_id;
    const bool last = thd_id + 1 == nthreads;
    const unsigned len = last ? nrow - start_rid : share;
    return std::make_pair(start_rid, len);
''')]
R['aa05_mbstep'] = [(TT, '''        if (ur_distribution(generator) > mb_perctg)
            continue; // Sample rows

        unsigned true_row_id = get_global_data_id(row);

        mb_selected.push_back(true_row_id - start_rid); // Local rid

        for (unsigned clust_idx = 0;
                clust_idx < g_clusters->get_nclust(); clust_idx++) {
            double dist = kbase::dist_comp_raw<double>(
                    &curr_task->get_data_ptr()[row*ncol],
                    &(g_clusters->get_means()[clust_idx*ncol]), ncol,
                    dist_metric);
''', '''        const bool skipped = ur_distribution(generator) > mb_perctg;
        if (skipped)
            continue;

        const unsigned true_row_id = get_global_data_id(row);
        const unsigned local_rid = true_row_id - start_rid;
        mb_selected.push_back(local_rid);
        const auto* point = curr_task->get_data_ptr() + row*ncol;
        const unsigned nclust = g_clusters->get_nclust();

        for (unsigned clust_idx = 0; clust_idx < nclust; clust_idx++) {
            const double* center = &(g_clusters->get_means()[clust_idx*ncol]);
            const double dist = kbase::dist_comp_raw<double>(point, center,
                    ncol, dist_metric);
''')]
R['aa06_emskip'] = [(TT, '''            if (dist_v[true_row_id] <=
                    g_clusters->get_s_val(cluster_assignments[true_row_id])) {
                // Skip all rows
            } else {
''', '''            const double half_gap =
                g_clusters->get_s_val(cluster_assignments[true_row_id]);
            const bool stays = dist_v[true_row_id] <= half_gap;
            if (!stays) {
''')]
R['aa07_kmspp'] = [(KC, '''        for (size_t row = 0; row < nrow; row++) {
            cuml_dist -= dist_v[row];
            if (cuml_dist <= 0) {
                cltrs->set_mean(get_thd_data(row), clust_idx);
                cluster_assignments[row] = clust_idx;
                break;
            }
        }
''', '''        size_t row = 0;
        while (row < nrow) {
            cuml_dist -= dist_v[row];
            if (cuml_dist > 0) {
                row++;
                continue;
            }
            cluster_assignments[row] = clust_idx;
            cltrs->set_mean(get_thd_data(row), clust_idx);
            break;
        }
''')]
R['aa08_wake'] = [(CO, '''    for (unsigned thd_id = 0; thd_id < threads.size(); thd_id++) {
        threads[thd_id]->set_parent_mutex(&mutex);
        threads[thd_id]->wake(state);
    }
''', '''    for (auto const& worker : threads) {
        worker->set_parent_mutex(&mutex);
        worker->wake(state);
    }
''')]
