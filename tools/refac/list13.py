# splits of the hierarchical drivers (C26)
H = 'libman/hclust_coordinator.cpp'
HH = 'libman/hclust_coordinator.hpp'
X = 'libman/xmeans_coordinator.cpp'
G = 'libman/gmeans_coordinator.cpp'
I = 'libman/hclust_id_generator.hpp'
R = {}
R['hs01_done'] = [(H, '''        if (cluster_assignment_counts[zeroid] < min_clust_size
                || at_cluster_cap()) {
            deactivate(zeroid); // So we no longer process this
            // Record this as an output, unless no row is in it
            if (cluster_assignment_counts[zeroid] > 0)
                final_centroids[zeroid] = std::vector<double>(
                        hcltrs[id]->get_mean_rawptr(0),
                        hcltrs[id]->get_mean_rawptr(0) + ncol);
''', '''        const bool too_small = cluster_assignment_counts[zeroid] < min_clust_size;
        if (at_cluster_cap() || too_small) {
            const double* mean = hcltrs[id]->get_mean_rawptr(0);
            // Record this as an output, unless no row is in it
            if (cluster_assignment_counts[zeroid] != 0) {
                std::vector<double> centre(mean, mean + ncol);
                final_centroids[zeroid] = centre;
            }
            deactivate(zeroid); // So we no longer process this
''')]
R['hs02_pickfor'] = [(H, '''        for (unsigned vid = 0; vid < nrow; vid++) {
            if (l0_complete && l1_complete && r0_complete && r1_complete)
                break; // Out of inner loop

            if (cluster_assignments[vid] == zeroid) {''', '''        for (unsigned vid = 0; vid < nrow &&
                !(l0_complete && l1_complete && r0_complete && r1_complete); vid++) {
            const auto mine = cluster_assignments[vid];
            if (mine == zeroid) {''')]
R['hs03_spawnids'] = [(H, '''        auto zero_child_ids = ider->get_split_ids();
        hcltrs[zeroid] = base::h_clusters::create(2, ncol, zeroid,
                zero_child_ids.first, zero_child_ids.second);
        hcltrs[zeroid]->set_mean(get_thd_data(cp.l0), 0);
        hcltrs[zeroid]->set_mean(get_thd_data(cp.l1), 1);
        activate(zero_child_ids.first);
        activate(zero_child_ids.second);
        curr_nclust--; // Its halves replace it
''', '''        auto kids = ider->get_split_ids();
        curr_nclust--; // Its halves replace it
        activate(kids.first);
        activate(kids.second);
        auto part = base::h_clusters::create(2, ncol, zeroid,
                kids.first, kids.second);
        part->set_mean(get_thd_data(cp.l1), 1);
        part->set_mean(get_thd_data(cp.l0), 0);
        hcltrs[zeroid] = part;
''')]
R['hs04_spawnhelper'] = [(H, '''    if (cp.r_splittable()) {
        auto one_child_ids = ider->get_split_ids();
        hcltrs[oneid] = base::h_clusters::create(2, ncol, oneid,
                one_child_ids.first, one_child_ids.second);
        hcltrs[oneid]->set_mean(get_thd_data(cp.r0), 0);
        hcltrs[oneid]->set_mean(get_thd_data(cp.r1), 1);
        activate(one_child_ids.first);
        activate(one_child_ids.second);
        curr_nclust--;
    }
''', '''    if (!cp.r_splittable())
        return;
    split_half(oneid, cp.r0, cp.r1);
'''), (H, '''void hclust_coordinator::spawn(''', '''void hclust_coordinator::split_half(const unsigned id, const unsigned a,
        const unsigned b) {
    auto one_child_ids = ider->get_split_ids();
    hcltrs[id] = base::h_clusters::create(2, ncol, id,
            one_child_ids.first, one_child_ids.second);
    hcltrs[id]->set_mean(get_thd_data(a), 0);
    hcltrs[id]->set_mean(get_thd_data(b), 1);
    activate(one_child_ids.first);
    activate(one_child_ids.second);
    curr_nclust--;
}

void hclust_coordinator::spawn('''), (HH, '''        virtual bool at_cluster_cap''', '''        void split_half(const unsigned id, const unsigned a, const unsigned b);
        virtual bool at_cluster_cap''')]
R['hs05_rename'] = [(H, '''void hclust_coordinator::spawn(const unsigned& zeroid,
        const unsigned& oneid, const c_part& cp) {''', '''void hclust_coordinator::spawn(const unsigned& zero,
        const unsigned& one, const c_part& seeds) {
    const unsigned zeroid = zero;
    const unsigned oneid = one;
    const c_part& cp = seeds;''')]
R['hs06_remove'] = [(H, '''    for (unsigned id : remove_cache) {
        hcltrs.erase(id); // Delete
        deactivate(id);
        ider->reclaim_id(id);
    }

    // Update partition ID
    part_id = cluster_assignments;
''', '''    for (size_t i = 0; i < remove_cache.size(); ++i) {
        const unsigned old = remove_cache[i];
        ider->reclaim_id(old);
        deactivate(old);
        hcltrs.erase(old); // Delete
    }

    // Update partition ID
    for (size_t row = 0; row < nrow; row++)
        part_id[row] = cluster_assignments[row];
''')]
R['hs07_ids'] = [(I, '''        unsigned l, r;
        if (recycler.size()) {
            l = recycler.back();
            recycler.pop_back();
        } else {
            l = ++max_id;
        }

        if (recycler.size()) {
            r = recycler.back();
            recycler.pop_back();
        } else {
            r = ++max_id;
        }
        return split_id(l, r);
''', '''        const unsigned l = next_id();
        const unsigned r = next_id();
        return split_id(l, r);
    }

private:
    unsigned next_id() {
        if (recycler.empty()) {
            max_id += 1;
            return max_id;
        }
        const unsigned id = recycler.back();
        recycler.pop_back();
        return id;
''')]
R['hs08_xundo'] = [(X, '''            auto const& lmembers = memb_cltrs[score.lid];
            for (size_t i = 0; i < memb_cltrs[score.lid].size(); i++)
               cluster_assignments[lmembers[i]] = score.pid;

            auto const& rmembers = memb_cltrs[score.rid];
            for (size_t i = 0; i < memb_cltrs[score.rid].size(); i++)
               cluster_assignments[rmembers[i]] = score.pid;
''', '''            for (auto const& row : memb_cltrs[score.rid])
               cluster_assignments[row] = score.pid;

            for (auto const& row : memb_cltrs[score.lid])
               cluster_assignments[row] = score.pid;
''')]
R['hs09_xif'] = [(X, '''        if (score.pscore > score.cscore) {''', '''        const bool keep_parent = score.cscore < score.pscore;
        if (keep_parent) {'''), (X, '''             cluster_assignment_counts[score.lid] =
                        cluster_assignment_counts[score.rid] = 0;
''', '''            cluster_assignment_counts[score.rid] = 0;
            cluster_assignment_counts[score.lid] = 0;
''')]
R['hs10_gundo'] = [(G, '''        auto score = ad_vecs[pid].back();

        if (score <= critical_values[strictness]) {''', '''        auto score = ad_vecs[pid].back();
        const double limit = critical_values[strictness];

        if (!(score > limit)) {'''), (G, '''        auto pid = part_id[rid];
        // Ignore keys outside in hcltrs
        if (pid < revert_cache.size() && revert_cache[pid]) {
                // Means that row assignments needs to be reverted to part_id
                cluster_assignments[rid] = pid;
        }
''', '''        // Ignore keys outside in hcltrs
        if (part_id[rid] >= revert_cache.size())
            continue;
        if (revert_cache[part_id[rid]])
            cluster_assignments[rid] = part_id[rid];
''')]
R['hs11_rest'] = [(H, '''        auto const& c = itr.next().second;
        // A half without rows is not a cluster of the result
        if (cluster_assignment_counts[c->get_zeroid()] > 0)
            final_centroids[c->get_zeroid()] =
                std::vector<double>(c->get_mean_rawptr(0),
                        c->get_mean_rawptr(0) + ncol);
''', '''        auto c = itr.next().second;
        // A half without rows is not a cluster of the result
        auto z = c->get_zeroid();
        if (cluster_assignment_counts[z] != 0) {
            auto p = c->get_mean_rawptr(0);
            final_centroids[z] = std::vector<double>(p, p + ncol);
        }
''')]
R['hs12_cap'] = [(HH, '''            return curr_nclust + pending >= k*2;''', '''            const size_t most = 2*k;
            return !(curr_nclust + pending < most);'''), (H, '''    cltr_active_vec->set(id, true);
    curr_nclust++;''', '''    ++curr_nclust;
    cltr_active_vec->set(id, true);''')]
R['hs13_pending'] = [(H, '''        // NOTE: A split of zeroid makes one more cluster
        if (cluster_assignment_counts[oneid] < min_clust_size
                || at_cluster_cap(l0_complete ? 0 : 1)) {''', '''        // NOTE: A split of zeroid makes one more cluster
        size_t pending = 1;
        if (l0_complete)
            pending = 0;
        if (at_cluster_cap(pending)
                || !(cluster_assignment_counts[oneid] >= min_clust_size)) {''')]
