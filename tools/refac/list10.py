"""Edits of fuzzy c-means, medoids that keep behaviour (w*)."""
R = {}
F = 'libman/fcm.cpp'; FC = 'libman/fcm_coordinator.cpp'; M = 'libman/medoid.cpp'; MC = 'libman/medoid_coordinator.cpp'
E_ = '''            if (dist > 0) {
                //TODO: Fix bad access pattern. um -> col major
                um->set(cid, true_rid,
                        std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
            } else {
                // The row is the center: as close as can be, not as far
                um->set(cid, true_rid,
                        std::pow((1.0 / 2.2E-16), (1.0 / (fuzzindex-1))));
            }
'''
R['w01_floored'] = [(F, E_, '''            if (!(dist > 0))
                dist = 2.2E-16;
            const double power = 1.0 / (fuzzindex-1);
            um->set(cid, true_rid, std::pow(dist, -power));
''')]
R['w02_weighthelper'] = [(F, '''void fcm::Estep() {
''', '''static double weight_of(const double dist, const unsigned fuzz) {
    const double inv = dist > 0 ? 1.0 / dist : 1.0 / 2.2E-16;
    return std::pow(inv, 1.0 / (fuzz-1));
}

void fcm::Estep() {
'''), (F, E_, '''            um->set(cid, true_rid, weight_of(dist, fuzzindex));
''')]
R['w03_swaploops'] = [(F, '''    for (unsigned row = 0; row < nprocrows; row++) {
        unsigned true_rid = get_global_data_id(row);
        for (unsigned cid = 0; cid < nclust; cid++) {
''', '''    for (unsigned cid = 0; cid < nclust; cid++) {
        for (unsigned row = 0; row < nprocrows; row++) {
            unsigned true_rid = get_global_data_id(row);
''')]
R['w04_mstepzero'] = [(F, '''    for (unsigned lcid = start_rid; lcid < start_rid+nprocrows; lcid++) {
        unsigned rrid = lcid - start_rid;
''', '''    for (unsigned rrid = 0; rrid < nprocrows; rrid++) {
        const unsigned lcid = get_global_data_id(rrid);
''')]
R['w05_mergeloop'] = [(FC, '''    if (threads.size() == 1) {
        centers->copy_from(std::static_pointer_cast<fcm>(
                    threads[0])->get_innerprod());
    } else {
        auto sum = *(std::static_pointer_cast<fcm>(threads[0])->get_innerprod()) +
                *(std::static_pointer_cast<fcm>(threads[1])->get_innerprod());
        centers->copy_from(sum);
        delete (sum);

        for (size_t tid = 2; tid < threads.size(); tid++) {
            *centers += *(std::static_pointer_cast<fcm>(
                            threads[tid])->get_innerprod());
        }
    }
''', '''    centers->zero();
    for (auto const& th : threads)
        *centers += *(std::static_pointer_cast<fcm>(th)->get_innerprod());
''')]
R['w06_mergefirst'] = [(FC, '''    if (threads.size() == 1) {
        centers->copy_from(std::static_pointer_cast<fcm>(
                    threads[0])->get_innerprod());
    } else {
        auto sum = *(std::static_pointer_cast<fcm>(threads[0])->get_innerprod()) +
                *(std::static_pointer_cast<fcm>(threads[1])->get_innerprod());
        centers->copy_from(sum);
        delete (sum);

        for (size_t tid = 2; tid < threads.size(); tid++) {
            *centers += *(std::static_pointer_cast<fcm>(
                            threads[tid])->get_innerprod());
        }
    }
''', '''    centers->copy_from(std::static_pointer_cast<fcm>(
                threads[0])->get_innerprod());
    for (size_t tid = 1; tid < threads.size(); tid++) {
        auto part = std::static_pointer_cast<fcm>(threads[tid])->get_innerprod();
        *centers += *part;
    }
''')]
R['w07_sumzero'] = [('libkcommon/dense_matrix.hpp', '''            // Copy the first row
            res.resize(ncol);
            std::copy(mat.begin(), mat.begin()+ncol, res.begin());

            // TODO: Bottleneck
            for (size_t row = 1; row < nrow; row++) {
                size_t row_offset = row * ncol;
                for (size_t col = 0; col < ncol; col++) {
                    res[col] += mat[row_offset+col];
                }
            }
''', '''            res.assign(ncol, 0);
            for (size_t row = 0; row < nrow; row++)
                for (size_t col = 0; col < ncol; col++)
                    res[col] += mat[row*ncol + col];
''')]
R['w08_divpow'] = [('libkcommon/dense_matrix.hpp', '''                    mat[row_offset+col] =
                        std::pow(mat[row_offset+col] / v[col], exp);
''', '''                    T& val = mat[row_offset+col];
                    val /= v[col];
                    val = std::pow(val, exp);
''')]
R['w09_coststore'] = [(M, '''        double energy = 0;

        // member_id is a global identifier
        for (auto const& member_id : coord->get_membership()[cid]) {
            if (member_id != true_rid) {
                energy += kbase::dist_comp_raw<double>(&local_data[row*ncol],
                    coord->get_thd_data(member_id), ncol, dist_metric);
            }
        }
''', '''        double energy = 0;
        const double* mine = &local_data[row*ncol];
        auto const& members = coord->get_membership()[cid];

        for (size_t i = 0; i < members.size(); i++) {
            if (members[i] == true_rid)
                continue;
            energy += kbase::dist_comp_raw<double>(mine,
                    coord->get_thd_data(members[i]), ncol, dist_metric);
        }
''')]
R['w10_aggref'] = [(MC, '''        auto cm = t->get_candidate_medoids();
        auto ce = t->get_candidate_energy();
''', '''        auto const& cm = t->get_candidate_medoids();
        auto const& ce = t->get_candidate_energy();
'''), (MC, '''                cltrs->set_mean(get_thd_data(agg_candidate_medoids[cid]), cid);
            else
                cltrs->set_mean(&(gdata[agg_candidate_medoids[cid]*ncol]), cid);
''', '''                cltrs->set_mean(get_thd_data(chosen), cid);
            else
                cltrs->set_mean(gdata + chosen*ncol, cid);
'''), (MC, '''            medoids_changed = true;
            // Update energy''', '''            const size_t chosen = agg_candidate_medoids[cid];
            medoids_changed = true;
            // Update energy''')]
R['w11_clusterouter'] = [(MC, '''    // Accumulate the possible candidates and their energy
    for (auto const& th : threads) {
        auto t = std::static_pointer_cast<medoid>(th);
        auto cm = t->get_candidate_medoids();
        auto ce = t->get_candidate_energy();

        for (unsigned cid = 0; cid < k; cid++) {
            if (ce[cid] < agg_candidate_medoid_energy[cid]) {
                agg_candidate_medoid_energy[cid] = ce[cid];
                agg_candidate_medoids[cid] = cm[cid];
            }
        }
    }
''', '''    // Accumulate the possible candidates and their energy
    for (unsigned cid = 0; cid < k; cid++) {
        for (auto const& th : threads) {
            auto t = std::static_pointer_cast<medoid>(th);
            const double cost = t->get_candidate_energy()[cid];
            if (agg_candidate_medoid_energy[cid] > cost) {
                agg_candidate_medoid_energy[cid] = cost;
                agg_candidate_medoids[cid] = t->get_candidate_medoids()[cid];
            }
        }
    }
''')]
R['w12_membrowouter'] = [(MC, '''#ifdef _OPENMP
#pragma omp parallel for schedule(static)
#endif
    for (unsigned cid = 0; cid < k; cid++) {
        for (size_t rid = 0; rid < nrow; rid++) {
            if (cluster_assignments[rid] == cid)
                membership[cid].push_back(rid);
        }
    }
''', '''    for (size_t rid = 0; rid < nrow; rid++)
        membership[cluster_assignments[rid]].push_back(rid);
''')]
R['w13_energyassign'] = [(MC, '''    std::fill(medoid_energy.begin(), medoid_energy.end(), 0);
''', '''    medoid_energy.assign(k, 0);
''')]
R['w14_invertif'] = [(M, '''        if (ur_distribution(generator) > sample_rate)
            continue;

        unsigned true_rid''', '''        const bool sampled = ur_distribution(generator) <= sample_rate;
        if (!sampled)
            continue;

        unsigned true_rid''')]
R['w15_nogdata'] = [(MC, '''        if (agg_candidate_medoid_energy[cid] < medoid_energy[cid]) {
            medoids_changed = true;''', '''        if (agg_candidate_medoid_energy[cid] >= medoid_energy[cid])
            continue;
        {
            medoids_changed = true;''')]
