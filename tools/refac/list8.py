R={}
TH='libman/thread.cpp'; CO='libman/coordinator.cpp'
R['y01_joininline']=[(TH,'''    if (thd_id != INVALID_THD_ID)
        join();
''','''    if (thd_id == INVALID_THD_ID) {
        // Nothing to wait for
    } else {
        const int rc = pthread_join(hw_thd, NULL);
        if (rc)
            perror("pthread_join()");
        thd_id = INVALID_THD_ID;
    }
''')]
R['y02_exitloop']=[(CO,'''    wake4run(EXIT);
''','''    pending_threads = nthreads;
    for (auto& worker : threads) {
        worker->set_parent_mutex(&mutex);
        worker->wake(EXIT);
    }
''')]
R['y03_twoloops']=[('libman/fcm_coordinator.cpp','''        threads[thd_id]->start(WAIT); // Thread puts itself to sleep
''','''    }
    for (size_t i = 0; i < threads.size(); i++) {
        threads[i]->start(WAIT);
''')]
R['y04_back']=[('libman/kmeans_coordinator.cpp','''        threads[thd_id]->start(WAIT); // Thread puts itself to sleep
''','''        threads.back()->start(WAIT);
''')]
R['y05_exitfirst']=[(CO,'''    pthread_cond_destroy(&cond);
    pthread_mutex_destroy(&mutex);
    pthread_mutexattr_destroy(&mutex_attr);
    destroy_threads();
''','''    destroy_threads();
    threads.clear();
    pthread_cond_destroy(&cond);
    pthread_mutex_destroy(&mutex);
    pthread_mutexattr_destroy(&mutex_attr);
''')]
R['y06_loopcond']=[('libman/thread.hpp','''    while (true) { // So we can receive task after task
        // Takes the lock, so a phase only starts once it's handed over entirely
        t->wait();

        if (t->get_state() == knor::EXIT) {// No more work to do
            break;
        }
        t->run(); // else
    }
''','''    t->wait();
    while (t->get_state() != knor::EXIT) {
        t->run();
        // Takes the lock, so a phase only starts once it's handed over entirely
        t->wait();
    }
''')]
R['y07_starthelper']=[('libman/medoid.cpp','''    this->state = state;
    int rc = pthread_create(&hw_thd, NULL, callback<medoid>, this);
    if (rc)
        throw''','''    set_thread_state(state);
    const int rc = pthread_create(&hw_thd, nullptr, &callback<medoid>, this);
    if (rc != 0)
        throw''')]
R['y08_mutexjoin']=[(TH,'''    void* join_status;
    int rc = pthread_join(hw_thd, &join_status);
    if (rc)
        throw base::thread_exception("pthread_join()", rc);

    thd_id = INVALID_THD_ID;
''','''    if (const int rc = pthread_join(hw_thd, NULL))
        throw base::thread_exception("pthread_join()", rc);
    thd_id = INVALID_THD_ID;
''')]
