from list import R
R['s01_ctor_assign'] = [('libkcommon/types.cpp','''    assignment_count.resize(k);
    assignments.resize(nrow);

    std::copy(assignments_buf, assignments_buf + nrow, assignments.begin());
    std::copy(assignment_count_buf, assignment_count_buf + k,
            assignment_count.begin());
    this->centroids = centroids; // copy
}

cluster_t::cluster_t(const size_t nrow, const size_t ncol, const size_t iters,
             const''','''    assignments.assign(assignments_buf, assignments_buf + nrow);
    assignment_count.assign(assignment_count_buf, assignment_count_buf + k);
    this->centroids = centroids; // copy
}

cluster_t::cluster_t(const size_t nrow, const size_t ncol, const size_t iters,
             const''')]
R['s02_ctor_init'] = [('libkcommon/types.cpp','''    iters(iters), k(k) {

    assignment_count.resize(k);
    assignments.resize(nrow);

    std::copy(assignments_buf, assignments_buf + nrow, assignments.begin());
    std::copy(assignment_count_buf, assignment_count_buf + k,
            assignment_count.begin());
    this->centroids = centroids; // copy
}
''','''    iters(iters), k(k), assignments(assignments_buf, assignments_buf + nrow),
    assignment_count(assignment_count_buf, assignment_count_buf + k),
    centroids(centroids) {
}
''')]
R['s03_ctor_loop'] = [('libkcommon/types.cpp','''    std::copy(assignments_buf, assignments_buf + nrow, assignments.begin());
    std::copy(assignment_count_buf, assignment_count_buf + k,
            assignment_count.begin());
    this->centroids = centroids; // copy
}

cluster_t::cluster_t(const size_t nrow, const size_t ncol, const size_t iters,
             const''','''    for (size_t row = 0; row < nrow; row++)
        assignments[row] = assignments_buf[row];
    for (size_t cl = 0; cl < k; cl++)
        assignment_count[cl] = assignment_count_buf[cl];
    this->centroids = centroids; // copy
}

cluster_t::cluster_t(const size_t nrow, const size_t ncol, const size_t iters,
             const''')]
R['s04_fcm_count'] = [('libman/fcm_coordinator.cpp','''    for (auto const& i : cluster_assignments)
        cluster_assignment_counts[i]++;
''','''    for (size_t row = 0; row < nrow; row++)
        ++cluster_assignment_counts[cluster_assignments[row]];
''')]
R['s05_kpp_min'] = [('libman/kmeans_thread.cpp','''        if (dist < dist_v[true_row_id]) { // Found a closer cluster than before
            dist_v[true_row_id] = dist;
            cluster_assignments[true_row_id] = clust_idx;
        }
        cuml_dist += dist_v[true_row_id];
    }''','''        double closest = dist_v[true_row_id];
        if (!(dist >= closest)) { // Found a closer cluster than before
            cluster_assignments[true_row_id] = clust_idx;
            dist_v[true_row_id] = closest = dist;
        }
        cuml_dist += closest;
    }''')]
R['s06_kpp_for'] = [('libman/kmeans_coordinator.cpp','''    unsigned clust_idx = 0; // The number of clusters assigned

    std::uniform_real_distribution<double> ur_distribution(0.0, 1.0);

    // Choose next center c_i with weighted prob
    while (true) {''','''    std::uniform_real_distribution<double> ur_distribution(0.0, 1.0);

    // Choose next center c_i with weighted prob
    for (unsigned clust_idx = 0; ; ) {''')]
R['s07_kpp_helper'] = [('libman/kmeans_coordinator.cpp','''        for (size_t row = 0; row < nrow; row++) {
            cuml_dist -= dist_v[row];
            if (cuml_dist <= 0) {
                cltrs->set_mean(get_thd_data(row), clust_idx);
                cluster_assignments[row] = clust_idx;
                break;
            }
        }
        assert(cuml_dist <= 0);''','''        size_t chosen = 0;
        while (chosen < nrow) {
            cuml_dist -= dist_v[chosen];
            if (cuml_dist <= 0)
                break;
            chosen++;
        }
        assert(cuml_dist <= 0);
        if (chosen < nrow) {
            cltrs->set_mean(get_thd_data(chosen), clust_idx);
            cluster_assignments[chosen] = clust_idx;
        }''')]
R['s08_forgy_inline'] = [('libman/kmeans_coordinator.cpp','''        unsigned rand_idx = distribution(generator);
        cltrs->set_mean(get_thd_data(rand_idx), clust_idx);''','''        cltrs->set_mean(get_thd_data(distribution(generator)), clust_idx);''')]
R['s09_forgy_while'] = [('libman/fcm_coordinator.cpp','''    for (unsigned clust_idx = 0; clust_idx < k; clust_idx++) { // 0...k
        unsigned rand_idx = distribution(generator);
''','''    for (unsigned clust_idx = 0; clust_idx != k; ++clust_idx) { // 0...k
        const unsigned rand_idx = distribution(generator);
''')]
R['s10_kpp_loopcond'] = [('libman/kmeans_coordinator.cpp','''    while (true) {
        set_thread_clust_idx(clust_idx); // Set the current cluster index
        wake4run(KMSPP_INIT); // Run || distance comp to clust_idx
        wait4complete();
        double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists

        cuml_dist = cuml_dist * ur_distribution(generator);
        if (++clust_idx >= k)  // No more centers needed
            break;
''','''    while (true) {
        set_thread_clust_idx(clust_idx++); // Set the current cluster index
        wake4run(KMSPP_INIT); // Run || distance comp to clust_idx
        wait4complete();
        double cuml_dist = ur_distribution(generator) * reduction_on_cuml_sum();
        if (clust_idx == k)  // No more centers needed
            break;
''')]
R['s11_auto_forgy'] = [('libauto/kmeans.cpp','''        size_t rand_idx = distribution(generator);
        clusters->set_mean(&matrix[rand_idx*num_cols], clust_idx);''','''        const double* row = matrix + distribution(generator)*num_cols;
        clusters->set_mean(row, clust_idx);''')]
R['s12_auto_kpp'] = [('libauto/kmeans.cpp','''        for (size_t i=0; i < NUM_ROWS; i++) {
            cum_dist -= dist_v[i];
            if (cum_dist <= 0) {
#if KM_TEST
#ifndef BIND
                printf("Choosing %lu as center K = %u\\n", i , clust_idx);
#endif
#endif
                cluster_assignments[i] = clust_idx;
                clusters->set_mean(&(matrix[i*NUM_COLS]), clust_idx);
                break;
            }
        }''','''        for (size_t i=0; i < NUM_ROWS; ++i) {
            cum_dist = cum_dist - dist_v[i];
            if (cum_dist > 0)
                continue;
            clusters->set_mean(matrix + i*NUM_COLS, clust_idx);
            cluster_assignments[i] = clust_idx;
            break;
        }''')]
R['s13_dist_local'] = [('libdist/dist_coordinator.cpp','''    if (is_local(selected_idx)) {
        cltrs->set_mean(get_thd_data(local_rid(selected_idx)), 0);
        dist_v[local_rid(selected_idx)] = 0.0;
        cluster_assignments[local_rid(selected_idx)] = 0;
    }''','''    if (is_local(selected_idx)) {
        const size_t mine = local_rid(selected_idx);
        dist_v[mine] = 0.0;
        cluster_assignments[mine] = 0;
        cltrs->set_mean(get_thd_data(mine), 0);
    }''')]
R['s14_min'] = [('libman/kmeans_thread.cpp','''    for (unsigned row = 0; row < nprocrows; row++) {
        unsigned true_row_id = get_global_data_id(row);

        double dist = kbase::dist_comp_raw<double>(&local_data[row*ncol],
                &((g_clusters->get_means())[clust_idx*ncol]), ncol,
                dist_metric);

        if (dist < dist_v[true_row_id]) {''','''    const double* centre = &((g_clusters->get_means())[clust_idx*ncol]);
    for (unsigned row = 0; row < nprocrows; row++) {
        unsigned true_row_id = start_rid + row;
        const double* dp = &local_data[row*ncol];
        double dist = kbase::dist_comp_raw<double>(dp, centre, ncol,
                dist_metric);

        if (dist < dist_v[true_row_id]) {''')]
R['s15_medoid_forgy'] = [('libman/medoid_coordinator.cpp','''XXX''','''''')]
del R['s15_medoid_forgy']
R['s16_tally'] = [('libman/kmeans_task_coordinator.cpp','''        tally_assignment_counts();

#ifdef PROFILER''','''    {
        std::fill(cluster_assignment_counts.begin(),
                cluster_assignment_counts.end(), 0);
        for (auto const& cl : cluster_assignments)
            cluster_assignment_counts[cl] += 1;
    }

#ifdef PROFILER''')]
