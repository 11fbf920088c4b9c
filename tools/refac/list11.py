# hierarchical pass (C24)
H = 'libman/hclust.cpp'
X = 'libman/xmeans.cpp'
C = 'libman/hclust_coordinator.cpp'
T = 'libkcommon/types.hpp'
R = {}
R['v01_skiplocal'] = [(H, '''        // Not active or has converged
        if (!(cltr_active_vec->get(cluster_assignments[true_row_id])) ||
                g_hcltrs[rpart_id]->has_converged())
            continue; // Skip it
''', '''        const bool act = cltr_active_vec->get(cluster_assignments[true_row_id]);
        if (!act)
            continue;
        if (g_hcltrs[rpart_id]->has_converged())
            continue;
''')]
R['v02_twodists'] = [(H, '''        double best, dist;
        dist = best = std::numeric_limits<double>::max();

        for (unsigned clust_idx = 0; clust_idx < 2; clust_idx++) {
            dist = base::dist_comp_raw<double>(&local_data[row*ncol],
                    &(g_hcltrs[rpart_id]->
                        get_means()[clust_idx*ncol]), ncol, dist_metric);
            if (dist < best) {
                best = dist;
                if (clust_idx == 0) {
                    asgnd_clust = g_hcltrs[rpart_id]->get_zeroid();
                } else {
                    asgnd_clust = g_hcltrs[rpart_id]->get_oneid();
                    flag = 1;
                }
            }
        }
''', '''        const double zdist = base::dist_comp_raw<double>(&local_data[row*ncol],
                &(g_hcltrs[rpart_id]->get_means()[0]), ncol, dist_metric);
        const double odist = base::dist_comp_raw<double>(&local_data[row*ncol],
                &(g_hcltrs[rpart_id]->get_means()[ncol]), ncol, dist_metric);
        if (odist < zdist) {
            asgnd_clust = g_hcltrs[rpart_id]->get_oneid();
            flag = 1;
        } else {
            asgnd_clust = g_hcltrs[rpart_id]->get_zeroid();
        }
''')]
R['v03_idafter'] = [(H, '''                best = dist;
                if (clust_idx == 0) {
                    asgnd_clust = g_hcltrs[rpart_id]->get_zeroid();
                } else {
                    asgnd_clust = g_hcltrs[rpart_id]->get_oneid();
                    flag = 1;
                }
            }
        }
''', '''                best = dist;
                flag = clust_idx;
            }
        }
        asgnd_clust = flag ? g_hcltrs[rpart_id]->get_oneid() :
            g_hcltrs[rpart_id]->get_zeroid();
''')]
R['v04_order'] = [(H, '''        if (asgnd_clust != cluster_assignments[true_row_id])
            nchanged[rpart_id]++;
        local_hcltrs[rpart_id]->add_member(&local_data[row*ncol], flag);
        cluster_assignments[true_row_id] = asgnd_clust;
''', '''        local_hcltrs[rpart_id]->add_member(&local_data[row*ncol], flag);
        const bool moved = cluster_assignments[true_row_id] != asgnd_clust;
        if (moved)
            nchanged[rpart_id] += 1;
        cluster_assignments[true_row_id] = asgnd_clust;
''')]
R['v05_partref'] = [(X, '''        for (unsigned clust_idx = 0; clust_idx < 2; clust_idx++) {
            dist = base::dist_comp_raw<double>(&local_data[row*ncol],
                    &(g_hcltrs[rpart_id]->
                        get_means()[clust_idx*ncol]), ncol, dist_metric);
''', '''        auto part = g_hcltrs[rpart_id];
        const double* rowdata = &local_data[row*ncol];
        for (unsigned clust_idx = 0; clust_idx < 2; clust_idx++) {
            const double* center = &(part->get_means()[clust_idx*ncol]);
            dist = base::dist_comp_raw<double>(rowdata, center, ncol, dist_metric);
''')]
R['v06_keysloop'] = [(C, '''    auto _itr = hcltrs.get_iterator();
    while (_itr.has_next()) {
        auto kv = _itr.next();
        // There are only ever 2 of these for hclust
        auto pid = kv.first; // partition ID
        auto c = kv.second;
''', '''    std::vector<size_t> pids;
    hcltrs.get_keys(pids);
    for (size_t p = 0; p < pids.size(); p++) {
        auto pid = pids[p];
        auto c = hcltrs[pid];
'''), (C, '''        cluster_assignment_counts[kv.first] = 0; // Zero out parent''', '''        cluster_assignment_counts[pid] = 0; // Zero out parent''')]
R['v07_splitcond'] = [(C, '''            if (nchanged[pid] == 0 ||
                    (nchanged[pid]/(double)part_nmembers) <= tolerance) {
                c->set_converged();
            }
''', '''            const double moved = nchanged[pid];
            const bool done = moved == 0 || moved/part_nmembers <= tolerance;
            if (done)
                c->set_converged();
''')]
R['v08_helper'] = [(C, '''void hclust_coordinator::update_clusters() {
''', '''static void clear_unfinished(base::vmap<std::shared_ptr<base::clusters>>& parts) {
    auto itr = parts.get_iterator();
    while (itr.has_next()) {
        auto part = itr.next().second;
        if (part->has_converged())
            continue;
        part->clear();
    }
}

void hclust_coordinator::update_clusters() {
'''), (C, '''    auto itr = hcltrs.get_iterator();
    while (itr.has_next()) {
        auto kv = itr.next();
        assert(is_active(kv.first));
        if (!kv.second->has_converged()) {
            kv.second->clear();
        }
    }

    // Serial''', '''    clear_unfinished(hcltrs);

    // Serial''')]
R['v09_thdindex'] = [(C, '''    for (auto const& thd : threads) {
        // Update the changed cluster count
        auto thd_nchanged =
            (std::static_pointer_cast<hclust>(thd))->get_nchanged();
''', '''    for (unsigned tid = 0; tid < threads.size(); tid++) {
        auto thd = threads[tid];
        // Update the changed cluster count
        auto thd_nchanged =
            (std::static_pointer_cast<hclust>(thd))->get_nchanged();
''')]
R['v10_mergefirst'] = [(C, '''        // Update the changed cluster count
        auto thd_nchanged =
            (std::static_pointer_cast<hclust>(thd))->get_nchanged();
        for (size_t i = 0; i < thd_nchanged.size(); i++)
            nchanged[i] += thd_nchanged[i];

        // Update the global hcltrs with local ones
        auto itr = (std::static_pointer_cast<hclust>(
                        thd))->get_local_hcltrs().get_iterator();
        while (itr.has_next()) {
            auto kv = itr.next();
            hcltrs[kv.first]->peq(kv.second);
        }
''', '''        auto worker = std::static_pointer_cast<hclust>(thd);
        // Update the global hcltrs with local ones
        auto itr = worker->get_local_hcltrs().get_iterator();
        while (itr.has_next()) {
            auto kv = itr.next();
            hcltrs[kv.first]->peq(kv.second);
        }
        // Update the changed cluster count
        auto thd_nchanged = worker->get_nchanged();
        for (size_t i = 0; i < thd_nchanged.size(); i++)
            nchanged[i] += thd_nchanged[i];
''')]
R['v11_hasnextwhile'] = [(T, '''            if (offset == vm.size() || !vm.size())
                return false;

            for (; offset < vm.size(); offset++)
                if (vm.emptyval != vm[offset])
                    return true;

            return false;
''', '''            while (offset < vm.size()) {
                if (vm[offset] != vm.emptyval)
                    return true;
                ++offset;
            }
            return false;
''')]
R['v12_keysif'] = [(T, '''            for (size_t id = 0; id < size(); id++) {
                if (emptyval != data[id]) {
                    ids.push_back(id);
                }
            }
''', '''            const size_t n = size();
            for (size_t id = 0; id < n; ++id) {
                if (data[id] == emptyval)
                    continue;
                ids.push_back(id);
            }
''')]
R['v13_noexplicitclear'] = [(H, '''            local_hcltrs[kv.first] = base::h_clusters::create(2, ncol);
            local_hcltrs[kv.first]->clear(); // NOTE: Could be combined into ctor
''', '''            auto fresh = base::h_clusters::create(2, ncol);
            fresh->clear();
            local_hcltrs[kv.first] = fresh;
''')]
R['v14_nextinit'] = [(T, '''            std::pair<size_t, T> ret(offset, vm[offset]);
            offset++;
            return ret;
''', '''            const size_t cur = offset;
            ++offset;
            return std::pair<size_t, T>(cur, vm[cur]);
''')]
