"""Edits of parallel loops and of the workers' phases that keep behaviour (z*)."""
R = {}
A = 'libauto/kmeans.cpp'
INC = '''        if (asgnd_clust != cluster_assignments[row]) {
#ifdef _OPENMP
            pt_num_change[omp_get_thread_num()]++;
#else
            pt_num_change[0]++;
#endif
        }
        cluster_assignments[row] = asgnd_clust;
#ifdef _OPENMP
        pt_cl[omp_get_thread_num()]->add_member(
                &matrix[row*NUM_COLS], asgnd_clust);
#else
        pt_cl[0]->add_member(&matrix[row*NUM_COLS], asgnd_clust);
#endif
'''
R['z01_tidlocal'] = [(A, INC, '''#ifdef _OPENMP
        const int me = omp_get_thread_num();
#else
        const int me = 0;
#endif
        auto& mine = pt_cl[me];
        unsigned& label = cluster_assignments[row];
        if (asgnd_clust != label)
            ++pt_num_change[me];
        label = asgnd_clust;
        mine->add_member(matrix + row*NUM_COLS, asgnd_clust);
''')]
R['z02_splitpragma'] = [(A, '''#pragma omp parallel for firstprivate(matrix, pt_cl)\\
    shared(cluster_assignments) schedule(static)
#endif
    for (size_t row = 0; row < NUM_ROWS; row++) {

        size_t asgnd_clust''', '''#pragma omp parallel
    {
#pragma omp for schedule(static)
#endif
    for (size_t row = 0; row < NUM_ROWS; row++) {

        size_t asgnd_clust'''), (A, '''        // Accumulate for local copies
    }
''', '''        // Accumulate for local copies
    }
#ifdef _OPENMP
    }
#endif
''')]
R['z03_biccritical'] = [('libkcommon/util.cpp', '''#pragma omp parallel for reduction(+:bic) shared (dist_v)
#endif
    for (unsigned i = 0; i < dist_v.size(); i++) {
        bic += (dist_v[i] );
    }
''', '''#pragma omp parallel shared (dist_v)
    {
        double part = 0;
#pragma omp for
        for (unsigned i = 0; i < dist_v.size(); i++)
            part += dist_v[i];
#pragma omp critical
        bic += part;
    }
#else
    for (unsigned i = 0; i < dist_v.size(); i++)
        bic += dist_v[i];
#endif
''')]
R['z04_sumapart'] = [(A, '''                cluster_assignments[row] = clust_idx;
            }
            cum_dist += dist_v[row];
        }

        cum_dist = cum_dist''', '''                cluster_assignments[row] = clust_idx;
            }
        }

#ifdef _OPENMP
#pragma omp parallel for reduction(+:cum_dist)
#endif
        for (size_t row = 0; row < NUM_ROWS; row++)
            cum_dist += dist_v[row];

        cum_dist = cum_dist'''), (A, '#pragma omp parallel for reduction(+:cum_dist) shared (dist_v)', '#pragma omp parallel for')]
R['z05_adref'] = [('libman/gmeans_coordinator.cpp', '''        double score = base::AndersonDarling::compute_statistic(
                ad_vecs[keys[idx]].size(), &(ad_vecs[keys[idx]][0]));
        scores[idx] = score;
''', '''        auto& vec = ad_vecs.find(keys[idx])->second;
        scores[idx] = base::AndersonDarling::compute_statistic(
                vec.size(), vec.data());
''')]
R['z06_bicsizes'] = [('libman/xmeans_coordinator.cpp', '''            auto const& lmembers = memb_cltrs[score.lid];
            for (size_t i = 0; i < memb_cltrs[score.lid].size(); i++)
               cluster_assignments[lmembers[i]] = score.pid;

            auto const& rmembers = memb_cltrs[score.rid];
            for (size_t i = 0; i < memb_cltrs[score.rid].size(); i++)
               cluster_assignments[rmembers[i]] = score.pid;
''', '''            for (auto rid : memb_cltrs.at(score.lid))
               cluster_assignments[rid] = score.pid;
            for (auto rid : memb_cltrs.at(score.rid))
               cluster_assignments[rid] = score.pid;
'''), ('libman/xmeans_coordinator.cpp', '''#pragma omp critical
''', '''#pragma omp critical (tables)
''')]
R['z07_localscratch'] = [('libman/fcm.cpp', '''        for (unsigned lrid = 0; lrid < nclust; lrid++) {
            for (unsigned rcid = 0; rcid < ncol; rcid++) {
                innerprod->peq(lrid, rcid,
                        um->get(lrid, lcid) * local_data[rrid*ncol+rcid]);
            }
        }
''', '''        for (unsigned lrid = 0; lrid < nclust; lrid++) {
            for (unsigned rcid = 0; rcid < ncol; rcid++)
                weighted[rcid] =
                    um->get(lrid, lcid) * local_data[rrid*ncol+rcid];
            for (unsigned rcid = 0; rcid < ncol; rcid++)
                innerprod->peq(lrid, rcid, weighted[rcid]);
        }
'''), ('libman/fcm.cpp', '''    innerprod->zero(); // Reset this
''', '''    innerprod->zero(); // Reset this
    std::vector<double> weighted(ncol);
''')]
R['z08_medoidlabelref'] = [('libman/medoid.cpp', '''        if (asgnd_clust != cluster_assignments[true_rid])
            meta.num_changed++;

        // Add to the cluster energy
        local_medoid_energy[asgnd_clust] += best;

        cluster_assignments[true_rid] = asgnd_clust;
''', '''        // Add to the cluster energy
        local_medoid_energy[asgnd_clust] += best;

        unsigned* label = cluster_assignments + true_rid;
        if (*label != asgnd_clust) {
            meta.num_changed++;
            *label = asgnd_clust;
        }
''')]
R['z09_revertshared'] = [('libman/gmeans_coordinator.cpp', '''#pragma omp parallel for default(shared) firstprivate(revert_cache)
#endif
    for (size_t rid = 0; rid < nrow; rid++) {
        auto pid = part_id[rid];
''', '''#pragma omp parallel for schedule(static)
#endif
    for (size_t rid = 0; rid < nrow; rid++) {
        const unsigned pid = part_id[rid];
''')]
R['z10_boolchar'] = [('libkcommon/thd_safe_bool_vector.hpp', '''    _bool() { }
    _bool(char c);''', '''    _bool() : _() { }
    _bool(char c);''')]
R['z11_membref'] = [('libman/medoid_coordinator.cpp', '''        for (size_t rid = 0; rid < nrow; rid++) {
            if (cluster_assignments[rid] == cid)
                membership[cid].push_back(rid);
        }
''', '''        auto& members = membership[cid];
        for (size_t rid = 0; rid < nrow; rid++)
            if (cid == cluster_assignments[rid])
                members.push_back(rid);
''')]
R['z12_mulrowptr'] = [('libkcommon/dense_matrix.hpp', '''            for (size_t rrow = 0; rrow < other.get_nrow(); rrow++) {
                for (size_t rcol = 0; rcol < other.get_ncol(); rcol++) {
                    rp[lrow*other.get_ncol()+rcol] +=
                        mat[lrow*ncol+rrow] *
                        other.get(rrow, rcol);
                }
            }
''', '''            double* out = rp + lrow*other.get_ncol();
            for (size_t rrow = 0; rrow < other.get_nrow(); rrow++) {
                const T factor = mat[lrow*ncol+rrow];
                for (size_t rcol = 0; rcol < other.get_ncol(); rcol++)
                    out[rcol] += factor * other.get(rrow, rcol);
            }
''')]
R['z13_sphererow'] = [('libkcommon/util.cpp', '''        double norm2 = 0;
        for (unsigned col = 0; col < ncol; col++)
            norm2 += (data[row*ncol+col]*data[row*ncol+col]);
        for (unsigned col = 0; col < ncol; col++)
            data[row*ncol+col] = data[row*ncol+col]/std::sqrt(norm2);
''', '''        double norm2 = 0;
        double* first = &data[row*ncol];
        for (size_t col = 0; col < ncol; col++)
            norm2 += first[col]*first[col];
        for (size_t col = 0; col < ncol; col++)
            first[col] /= std::sqrt(norm2);
''')]
R['z14_atomiccount'] = [(A, '''            pt_num_change[omp_get_thread_num()]++;
#else''', '''#pragma omp atomic
            pt_num_change[0]++;
#else''')]
R['z15_dynamic'] = [(A, 'shared(cluster_assignments) schedule(static)', 'shared(cluster_assignments) schedule(dynamic, 64)')]
R['z16_axis1acc'] = [('libkcommon/dense_matrix.hpp', '''                for (size_t col = 0; col < ncol; col++) {
                    res[row] += mat[row*ncol+col];
                }
''', '''                T total = 0;
                for (size_t col = 0; col < ncol; col++)
                    total += mat[row*ncol+col];
                res[row] = total;
''')]
R['z17_colreduce'] = [('libkcommon/dense_matrix.hpp', '''            // TODO: Bottleneck
            for (size_t row = 1; row < nrow; row++) {
                size_t row_offset = row * ncol;
                for (size_t col = 0; col < ncol; col++) {
                    res[col] += mat[row_offset+col];
                }
            }
''', '''#ifdef _OPENMP
#pragma omp parallel for
#endif
            for (size_t col = 0; col < ncol; col++)
                for (size_t row = 1; row < nrow; row++)
                    res[col] += mat[row*ncol+col];
''')]
R['z18_pairhelper'] = [('libkcommon/dist_matrix.cpp', '''                        double dist = knor::base::cos_dist(&(data[i*ncol]),
                                &(data[j*ncol]), ncol);
                        set(i,j, dist);
                        break;
''', '''                        const double* lhs = data + i*ncol;
                        const double* rhs = data + j*ncol;
                        set(i, j, knor::base::cos_dist(lhs, rhs, ncol));
                        break;
''')]
R['z19_hclustnode'] = [('libman/xmeans.cpp', '''        nearest_cdist[true_row_id] = best; // Update the best dist
        assert(asgnd_clust != base::INVALID_CLUSTER_ID);

        if (asgnd_clust != cluster_assignments[true_row_id])
            nchanged[rpart_id]++;
        local_hcltrs[rpart_id]->add_member(&local_data[row*ncol], flag);
        cluster_assignments[true_row_id] = asgnd_clust;
''', '''        assert(asgnd_clust != base::INVALID_CLUSTER_ID);
        nearest_cdist.at(true_row_id) = best; // Update the best dist

        auto node = local_hcltrs[rpart_id];
        node->add_member(local_data + row*ncol, flag);
        const bool moved = asgnd_clust != cluster_assignments[true_row_id];
        if (moved) {
            nchanged[rpart_id]++;
            cluster_assignments[true_row_id] = asgnd_clust;
        }
''')]
R['z20_reduction'] = [(A, '''    // Per thread changed cluster count. OMP_MAX_THREADS
    std::vector<size_t> pt_num_change(OMP_MAX_THREADS);
''', '''    size_t changed = 0;
'''), (A, '''    shared(cluster_assignments) schedule(static)
#endif
    for (size_t row = 0; row < NUM_ROWS; row++) {

        size_t asgnd''', '''    shared(cluster_assignments) schedule(static) reduction(+:changed)
#endif
    for (size_t row = 0; row < NUM_ROWS; row++) {

        size_t asgnd'''), (A, '''#ifdef _OPENMP
            pt_num_change[omp_get_thread_num()]++;
#else
            pt_num_change[0]++;
#endif
''', '''            changed++;
'''), (A, '''        g_num_changed += pt_num_change[thd];
''', ''), (A, '''    cls->clear();

    // Serial''', '''    cls->clear();
    g_num_changed += changed;

    // Serial''')]
R['z21_globalatomic'] = [(A, '''    // Per thread changed cluster count. OMP_MAX_THREADS
    std::vector<size_t> pt_num_change(OMP_MAX_THREADS);
''', ''), (A, '''#ifdef _OPENMP
            pt_num_change[omp_get_thread_num()]++;
#else
            pt_num_change[0]++;
#endif
''', '''#ifdef _OPENMP
#pragma omp atomic
#endif
            g_num_changed++;
'''), (A, '''        g_num_changed += pt_num_change[thd];
''', '')]
