R={}
T='libman/kmeans_task_thread.cpp'; C='libman/kmeans_task_coordinator.cpp'; L='libkcommon/clusters.cpp'
R['w01_scale']=[(L,'''        means[(ncol*idx)+col] = ((1-factor)*means[(idx*ncol)+col])
            + (factor*(member[col]));
''','''        double& m = means[(ncol*idx)+col];
        m += factor * (member[col] - m);
''')]
R['w02_global']=[(T,'''        mb_selected.push_back(true_row_id - start_rid); // Local rid
''','''        mb_selected.push_back(true_row_id);
'''),(T,'''    for (unsigned local_rid : mb_selected) {
        auto g_rid = start_rid + local_rid;
''','''    for (size_t i = 0; i < mb_selected.size(); i++) {
        const unsigned g_rid = mb_selected[i];
        const unsigned local_rid = g_rid - start_rid;
''')]
R['w03_counts']=[(C,'''        v[cid] = 1.0/v[cid];
''','''        v[cid] = 1 / v[cid];
'''),(C,'''        if (cid != base::INVALID_CLUSTER_ID) // Skip those not sampled
            v[cid]++;
''','''        if (cid == base::INVALID_CLUSTER_ID) // Skip those not sampled
            continue;
        v[cid] += 1;
'''),(C,'''    std::vector<double>v; v.assign(k, 0);// Use std::fill
''','''    std::vector<double> rates(k, 0);
    auto& v = rates;
''')]
R['w04_inline']=[(C,'''    for (size_t cid = 0; cid < k; cid++)
        v[cid] = 1.0/v[cid];
''',''''''),(T,'''        g_clusters->scale_centroid(eta[cid], cid,''','''        g_clusters->scale_centroid(1.0 / eta[cid], cid,''')]
R['w05_guard']=[(T,'''        if (ur_distribution(generator) > mb_perctg)
            continue; // Sample rows
''','''        const double draw = ur_distribution(generator);
        const bool sampled = draw <= mb_perctg;
        if (!sampled)
            continue; // Sample rows
''')]
R['w06_rate']=[(C,'''    if ((double)mb_size / nthreads < 1)
        mb_size = 1;
''','''    mb_size = (double)mb_size / nthreads < 1 ? 1 : mb_size;
''')]
R['w07_reset']=[(C,'''    // Reset the distances
    std::fill(&dist_v[0], &dist_v[nrow], std::numeric_limits<double>::max());
}

void kmeans_task_coordinator::update''','''    // Reset the distances
    for (double& d : dist_v)
        d = std::numeric_limits<double>::max();
}

void kmeans_task_coordinator::update''')]
R['w08_order']=[(T,'''    // Clear mb_selected for the next iteration
    mb_selected.clear();
''','''    // Forget the sample for the next iteration
    mb_selected.resize(0);
''')]
