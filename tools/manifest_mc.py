S=" Virtual time; bound on preemptions plus timer perturbations is iterated upwards until the tier's bound or budget, evidence states the last completed bound. Trusts the source rewriting onto the controlled scheduler and the stub engines' fidelity (a second family of scenarios uses the real engines)."
c("C14","model_checking",SCHED,"All priority orders, generation-completion orders and throughput assignments of up to 3 engines."+S)
c("C15","model_checking",SCHED,"Stub engines for every replacement timing; real engines for the answers."+S)
c("C16","model_checking",SCHED,"All small search/tick patterns; throughput compared in virtual time."+S)
c("C17","model_checking",SCHED,"All small search/tick/replacement patterns through a buffered and an unbuffered management channel."+S)
c("C19","model_checking",SCHED,"The whole collector with its connection replaced: all message sequences up to length 3 (4), all single and pairwise cuts of two streams, all compositions of a message header, all piece sizes."+S)
c("C21","model_checking",SCHED+"; the oracle on each schedule is the Go race detector bound to the code's own synchronisation","Races are reported only between accesses both executed in an explored schedule; the detector's shadow memory keeps a bounded number of accesses per word."+S)
c("C23","model_checking",SCHED,"The whole collector with connection, listener and database client replaced."+S)
c("C24","model_checking",SCHED,"One generator with stub engines; commands from up to 4 threads, long histories of updates in the default schedule."+S)
c("C26","model_checking",SCHED,"Both commands with connections and listeners replaced and the SPDY library rewritten as well; all sequences of up to 3 (4) clients of 11 kinds, and crowds.",)
