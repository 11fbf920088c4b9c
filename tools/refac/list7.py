R={}
R['x01_diffunique']=[('libman/fcm_coordinator.cpp','''        auto diff = (*centers - *prev_centers);
        auto frob_norm = diff->frobenius_norm();
''','''        std::unique_ptr<base::dense_matrix<double> > diff(*centers - *prev_centers);
        const double frob_norm = diff->frobenius_norm();
'''),('libman/fcm_coordinator.cpp','''            converged = true;
            delete (diff);
            break;
        }

        delete (diff);
        iter++;
''','''            converged = true;
            break;
        }
        iter++;
''')]
R['x02_diffearly']=[('libman/fcm_coordinator.cpp','''            converged = true;
            delete (diff);
            break;
        }

        delete (diff);
        iter++;
''','''            converged = true;
            break;
        }
        iter++;
'''),('libman/fcm_coordinator.cpp','''        auto frob_norm = diff->frobenius_norm();
''','''        auto frob_norm = diff->frobenius_norm();
        delete diff;
        diff = nullptr;
''')]
R['x03_bufvec']=[('libdist/dist_coordinator.cpp','''    double* clstr_buff = new double[k*ncol];
    size_t* nmemb_buff = new size_t[k];
''','''    std::vector<double> clstr_store(k*ncol);
    std::vector<size_t> nmemb_store(k);
    double* clstr_buff = &clstr_store[0];
    size_t* nmemb_buff = nmemb_store.data();
'''),('libdist/dist_coordinator.cpp','''    delete [] clstr_buff;
    delete [] nmemb_buff;
''','')]
R['x04_droptask']=[('libman/task_thread.cpp','''        if (curr_task)
            delete curr_task;
''','''        task* old = curr_task;
        curr_task = NULL;
        delete old;
'''),('libman/kmeans_task_thread.cpp','''        delete curr_task; // The last one of the previous phase
        curr_task = tasks->get_task();
''','''        if (curr_task != nullptr) {
            delete curr_task;
        }
        curr_task = tasks->get_task();
''')]
R['x05_gmmrange']=[('libman/gmm_coordinator.cpp','''    for (size_t i = 0; i < sigma_k.size(); i++) {
        delete sigma_k[i];
        delete inv_sigma_k[i];
    }
''','''    for (auto m : sigma_k)
        delete m;
    while (!inv_sigma_k.empty()) {
        delete inv_sigma_k.back();
        inv_sigma_k.pop_back();
    }
''')]
R['x06_innerown']=[('libman/fcm.cpp','''    delete (innerprod);
''','''    if (innerprod) {
        delete innerprod;
        innerprod = nullptr;
    }
''')]
R['x07_numaearly']=[('libman/thread.cpp','''    if (!preallocd_data && local_data) {
#ifdef USE_NUMA
    numa_free(local_data, get_data_size());
#else
    delete [] local_data;
#endif
    }
''','''    if (preallocd_data || !local_data)
        return;
#ifdef USE_NUMA
    numa_free(local_data, get_data_size());
#else
    delete [] local_data;
#endif
    local_data = NULL;
''')]
R['x08_close']=[('libman/thread.cpp','''    int rc = fclose(f);
    if (rc)
''','''    FILE* const file = f;
    f = NULL;
    if (const int rc = fclose(file))
'''),('libman/thread.cpp','''#endif
#endif
    f = NULL;
}
''','''#endif
#endif
}
''')]
R['x09_destroyhelper']=[('libman/coordinator.cpp','''    thread_iter it = threads.begin();
    for (; it != threads.end(); ++it)
        (*it)->destroy_numa_mem();
''','''    for (size_t i = 0; i < threads.size(); i++) {
        thread::ptr w = threads[i];
        w->destroy_numa_mem();
    }
''')]
R['x10_store']=[('libkcommon/io.cpp','''    for(unsigned i = 0; i < nrow; i++) {
        if (count == numel) { break; }
        if (cluster_assignments[i] == id) {
#ifdef NDEBUG
            fwrite(&data[i*ncol],
                        (ncol*sizeof(double)), 1, f);
#else
           assert(fwrite(&data[i*ncol],
                        (ncol*sizeof(double)), 1, f));
#endif
            count++;
        }
    }
    assert(count == numel);
    fclose(f);
''','''    for(unsigned i = 0; i < nrow && count < numel; i++) {
        if (cluster_assignments[i] != id)
            continue;
        const size_t put = fwrite(&data[i*ncol], sizeof(double)*ncol, 1, f);
        assert(put == 1);
        (void)put;
        count++;
    }
    const int rc = fclose(f);
    (void)rc;
    assert(count == numel);
''')]
R['x11_ptrflag']=[('libman/thread.cpp','''    preallocd_data = true; // The caller's to free, even if we have a file
}
''','''    take_callers();
}
'''),('libman/thread.hpp','''    void set_data_size(''','''    void take_callers() { preallocd_data = true; }
    void set_data_size(''')]
