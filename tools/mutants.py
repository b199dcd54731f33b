# (id, properties whose check should report it, [(file under src, old text, new text)])
MUTANTS = []
def M(mid, props, *edits):
    MUTANTS.append((mid, props, list(edits)))

# ---------------------------------------------------------------- C01
M("c01-int-clamp-in-f64", "C01",
  ("mutation.rs", """            let mut value = mutate_cauchy(value, scale, mutation_params, rng)
                .round()
                .to_i64()
                .unwrap_or(orig_value);

            if let Some(min) = min {
                value = value.max(min);
            }

            if let Some(max) = max {
                value = value.min(max);
            }

            value
""", """            let mut value = mutate_cauchy(value, scale, mutation_params, rng).round();

            if let Some(min) = min {
                value = value.max(min as f64);
            }

            if let Some(max) = max {
                value = value.min(max as f64);
            }

            value.to_i64().unwrap_or(orig_value)
"""))
M("c01-real-reflect", "C01",
  ("mutation.rs", """        if let Some(min) = min {
            value = value.max(min);
        }

        if let Some(max) = max {
            value = value.min(max);
        }

        if value.is_finite() {""", """        if let (Some(min), Some(max)) = (min, max) {
            // reflect at the bounds instead of piling up on them
            if value < min {
                value = min + (min - value).min(max - min);
            } else if value > max {
                value = max - (value - max).min(max - min);
            }
        } else {
            if let Some(min) = min {
                value = value.max(min);
            }

            if let Some(max) = max {
                value = value.min(max);
            }
        }

        if value.is_finite() {"""))
M("c01-anon-max", "C01",
  ("crossover.rs", """            if selected_keys.len() == max_size {
                break;
            }
""", """            if selected_keys.len() >= max_size.max(individuals_ordered.len()) {
                break;
            }
"""))
M("c01-anon-min", "C01",
  ("crossover.rs", """            let is_select_key = if selected_keys.len() < min_size {""",
   """            let is_select_key = if selected_keys.len() + 1 < min_size {"""))
M("c01-init-anon-in-option", "C01 C10",
  ("spec.rs", """                let mapping = if *init_size == 0 {""", """                let mapping = if *init_size == 0 || matches!(**value_type, Node::Const) {"""))
M("c01-variant-keep-payload", "C01 C13",
  ("mutation.rs", """        new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();
""", """        new_init_value = match (value, spec_map.get(new_variant_name).unwrap().as_ref()) {
            (value::Node::Real(current), spec::Node::Real { .. }) => value::Node::Real(*current),
            (_, new_spec) => new_spec.initial_value(),
        };
"""))
M("c01-guess-bounds", "C01 C11",
  ("value_util.rs", """                let out_of_bounds = match (min, max) {
                    (Some(min), _) if real_num < min => true,
                    (_, Some(max)) if real_num > max => true,
                    _ => false,
                };

                if out_of_bounds {
                    Err(Error::ValueNotWithinBounds {
                        path_hint: format_path(path),
                    })
                } else {
                    Ok(Node::Real(real_num))""", """                let out_of_bounds = match (min, max) {
                    (Some(min), None) => real_num < min,
                    (Some(min), Some(max)) => real_num < min || real_num > max,
                    _ => false,
                };

                if out_of_bounds {
                    Err(Error::ValueNotWithinBounds {
                        path_hint: format_path(path),
                    })
                } else {
                    Ok(Node::Real(real_num))"""))
M("c01-array-ragged", "C01",
  ("crossover.rs", """        let result_elements = (0..size)
""", """        let result_elements = (0..size.min(64))
"""))
# ---------------------------------------------------------------- C02
M("c02-drain-lost", "C02 C04",
  ("controller.rs", """                        algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);
""", """                        if !abort_signal_received || algo_ctx.best_seen_final().is_none() {
                            algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);
                        }
"""))
M("c02-mean-incremental", "C02",
  ("algorithm.rs", """    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;
""", """    let mean = obj_func_vals
        .iter()
        .map(|val| val.get())
        .reduce(|mean, val| (mean + val) / 2.0)
        .unwrap();
"""))
M("c02-dedup", "C02 C08",
  ("algorithm.rs", """            obj_func_vals.push(obj_func_val);
""", """            obj_func_vals.push(obj_func_val);
            obj_func_vals.dedup();
"""))
M("c02-f32-order", "C02",
  ("algorithm.rs", """        Self { obj_func_val, id }
    }
}

#[derive(Debug, Eq, PartialEq)]
enum IndState""", """        // tell apart only what is meaningfully different
        let obj_func_val = FiniteF64::new((obj_func_val.get() as f32) as f64).unwrap_or(obj_func_val);
        Self { obj_func_val, id }
    }
}

#[derive(Debug, Eq, PartialEq)]
enum IndState"""))
M("c02-evict-oldest", "C02",
  ("algorithm.rs", """                let key_to_remove = self.individuals.iter().next_back().unwrap().0.clone();
""", """                let key_to_remove = if self.individuals.values().any(|ctx| matches!(ctx.state, IndState::Ready(_))) {
                    self.individuals.iter().next_back().unwrap().0.clone()
                } else {
                    self.individuals.keys().min_by_key(|key| key.id).unwrap().clone()
                };
"""))
M("c02-evict-stale", "C02",
  ("algorithm.rs", """            while self.individuals.len() > self.static_params.max_pop_size {""",
   """            if let Some(horizon) = self.next_id.checked_sub(5 * self.static_params.max_pop_size) {
                self.individuals.retain(|key, _| key.id >= horizon);
            }

            while self.individuals.len() > self.static_params.max_pop_size {"""))
M("c02-none-on-abort", "C02 C04",
  ("controller.rs", """    match algo_ctx.best_seen_final() {
        Some(best_seen) => Ok(""", """    match algo_ctx.best_seen_final().filter(|_| count_accepted > 1 || !abort_signal_received) {
        Some(best_seen) => Ok("""))
M("c02-last-rejected", "C02 C03",
  ("controller.rs", """    match algo_ctx.best_seen_final() {
        Some(best_seen) => Ok(""", """    match algo_ctx.best_seen_final().filter(|_| count_accepted * 1000 > count_rejected) {
        Some(best_seen) => Ok("""))
# ---------------------------------------------------------------- C03
M("c03-n0", "C03",
  ("controller.rs", """        algo_config.num_concurrent.min(max_num_eval)
""", """        algo_config.num_concurrent.clamp(1, max_num_eval.max(1))
"""))
M("c03-reeval-free", "C03",
  ("controller.rs", """                            let new_individual = algo_ctx.next_individual();
""", """                            let new_individual = algo_ctx.next_individual();
                            let is_reeval = new_individual.is_reeval();
"""),
  ("controller.rs", """                            evaled_individuals.push(eval_future);
                            pushed_for_eval_count += 1;
""", """                            evaled_individuals.push(eval_future);
                            if !is_reeval {
                                pushed_for_eval_count += 1;
                            }
"""),
  ("algorithm.rs", """            state: IndState::PendingEval(Vec::default()),
        }
    }
}
""", """            state: IndState::PendingEval(Vec::default()),
        }
    }

    pub fn is_reeval(&self) -> bool {
        matches!(self.state, IndState::PendingEval(ref obj_func_vals) if !obj_func_vals.is_empty())
    }
}
"""))
M("c03-rejected-free", "C03",
  ("controller.rs", """                        if max_num_eval_completed {
                            break;""", """                        if evaled_individual_rejected && count_rejected > 100 && count_accepted == 0 {
                            pushed_for_eval_count -= 1;
                        }

                        if max_num_eval_completed {
                            break;"""),
  ("controller.rs", """                        if evaled_individual.obj_func_val.is_some() {
                            count_accepted += 1;""", """                        let evaled_individual_rejected = evaled_individual.obj_func_val.is_none();

                        if evaled_individual.obj_func_val.is_some() {
                            count_accepted += 1;"""))
M("c03-early-stop", "C03 C02",
  ("controller.rs", """(pushed_for_eval_count >= max_num_eval, count_accepted + count_rejected >= max_num_eval)""",
   """(pushed_for_eval_count >= max_num_eval, count_accepted + count_rejected + evaled_individuals.len() / 8 >= max_num_eval)"""))
# ---------------------------------------------------------------- C04
M("c04-target-strict", "C04",
  ("controller.rs", """best_seen_final.0.get() <= target_obj_func_val {""", """best_seen_final.0.get() < target_obj_func_val {"""))
M("c04-terminate-twice", "C04 C15",
  ("async_launch.rs", """abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());""", """abort_sig_sender_holder.take().unwrap().send(()).ok();"""))
M("c04-refill-on-reject", "C04",
  ("controller.rs", """                        } else if !max_num_eval_pushed && !abort_signal_received {""",
   """                        } else if !max_num_eval_pushed && (!abort_signal_received || (count_accepted == 0 && max_num_eval.is_some())) {"""))
M("c04-inproc-ignores-abort", "C04",
  ("sync_launch.rs", """            _ = abort_sig_recv.recv() => return Ok(None),
""", """            _ = async { abort_sig_recv.recv().await.ok(); tokio::time::sleep(std::time::Duration::from_secs(2)).await } => return Ok(None),
"""))
M("c04-abort-waits-child", "C04",
  ("process.rs", """            _ = abort_sig_future => {
                kill_and_reap_child_proc_group(unreaped_pgid)?;
                return Ok(None)
            }""", """            _ = abort_sig_future => {
                // give it a chance to finish
                let grace = tokio::time::sleep(Duration::from_secs(5));
                tokio::select! {
                    result = &mut child_result => return result,
                    _ = grace => (),
                }
                kill_and_reap_child_proc_group(unreaped_pgid)?;
                return Ok(None)
            }"""))
M("c04-target-current-batch", "C04",
  ("controller.rs", """                        if let (Some(target_obj_func_val), Some(best_seen_final)) =
                        (target_obj_func_val, algo_ctx.best_seen_final()) {""", """                        if let (Some(target_obj_func_val), Some(best_seen_final), false) =
                        (target_obj_func_val, algo_ctx.best_seen_final(), abort_signal_received) {"""))
M("c04-target-waits", "C04",
  ("controller.rs", """                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {
                                break;
                            }""", """                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {
                                if !abort_signal_received && !evaled_individuals.is_empty() {
                                    abort_signal_received = true;
                                    abort_signal_sender.broadcast(()).await.unwrap();
                                    continue;
                                }
                                break;
                            }"""))
M("c04-time-limit-once", "C04",
  ("sync_launch.rs", """                        cmd_sender.send(Command::Terminate).await.unwrap();
""", """                        if detailed_reporting_file_info.is_none() || algo_concurrency == 1 {
                            cmd_sender.send(Command::Terminate).await.unwrap();
                        }
"""),
  ("sync_launch.rs", """    let termination_criteria = termination::compile(termination_criteria)?;
""", """    let algo_concurrency = algo_config.num_concurrent;
    let termination_criteria = termination::compile(termination_criteria)?;
"""))
# ---------------------------------------------------------------- C05
M("c05-generational", "C05",
  ("controller.rs", """                        } else if !max_num_eval_pushed && !abort_signal_received {
                            let""", """                        } else if !max_num_eval_pushed && !abort_signal_received && (count_accepted + count_rejected) % 512 != 511 {
                            let"""))
M("c05-threads-capped", "C05",
  ("sync_launch.rs", """struct AsyncObjectiveFunctionImpl<F> {
    obj_func: Arc<F>,
""", """const MAX_OBJ_FUNC_THREADS: usize = 6;

struct AsyncObjectiveFunctionImpl<F> {
    obj_func: Arc<F>,
    permits: tokio::sync::Semaphore,
"""),
  ("sync_launch.rs", """            obj_func: Arc::new(obj_func),
""", """            obj_func: Arc::new(obj_func),
            permits: tokio::sync::Semaphore::new(MAX_OBJ_FUNC_THREADS),
"""),
  ("sync_launch.rs", """        let obj_func = self.obj_func.clone();
""", """        let _permit = self.permits.acquire().await.unwrap();
        let obj_func = Arc::clone(&self.obj_func);
"""))
M("c05-reeval-twice", "C05 C08",
  ("algorithm.rs", """            Some(self.individuals.remove(&key.clone()).unwrap())
""", """            let key = key.clone();
            let ctx = self.individuals.remove(&key).unwrap();
            if let IndState::Ready(ref obj_func_vals) = ctx.state {
                // keep it available as a parent while it is being re-evaluated
                let mut copy = IndContext::new(ctx.id, ctx.value.clone(), ctx.meta_params_used.clone());
                copy.state = IndState::Ready(obj_func_vals.clone());
                self.individuals.insert(key, copy);
            }
            Some(ctx)
"""))
M("c05-burst-after-reject", "C05 C03",
  ("controller.rs", """                            evaled_individuals.push(eval_future);
                            pushed_for_eval_count += 1;
""", """                            evaled_individuals.push(eval_future);
                            pushed_for_eval_count += 1;

                            if count_accepted == 0 && count_rejected == 50 && max_num_eval.map_or(true, |max| pushed_for_eval_count < max) {
                                evaled_individuals.push(evaluate_individual(algo_ctx.next_individual(), &obj_func,
                                    out_abort_signal_recv.clone(), seed_mgr.next_seed()));
                                pushed_for_eval_count += 1;
                            }
"""))
# ---------------------------------------------------------------- C06
M("c06-later-error", "C06",
  ("controller.rs", """                            error_recording = Some(error);
                        }
""", """                        }
                        if error_recording.is_none() || matches!(error, Error::ObjFuncValMustBeFinite) {
                            error_recording = Some(error);
                        }
"""))
M("c06-nonfinite-reject", "C06",
  ("controller.rs", """    let finitified_result = eval_result
""", """    let finitified_result = eval_result
        .filter(|val| !val.is_nan())
"""))
M("c06-signal-death", "C06 C16",
  ("process.rs", """    if output.status.success() {""", """    if output.status.code().unwrap_or(0) == 0 {"""))
M("c06-stdout-first", "C06 C16",
  ("process.rs", """    if output.status.success() {""", """    if output.status.success() || parse_child_result(&output.stdout).map_or(false, |result| result.objFuncVal.is_none()) {"""))
M("c06-error-vs-budget", "C06",
  ("controller.rs", """    if let Some(error) = error_recording {
        return Err(error);
    }
""", """    if let Some(error) = error_recording.filter(|_| max_num_eval != Some(pushed_for_eval_count) || count_accepted == 0) {
        return Err(error);
    }
"""))
M("c06-no-abort-broadcast", "C06",
  ("controller.rs", """                            abort_signal_received = true;
                            abort_signal_sender.broadcast(()).await.unwrap();
                            error_recording = Some(error);""", """                            abort_signal_received = true;
                            if !matches!(error, Error::ObjFuncValMustBeFinite) {
                                abort_signal_sender.broadcast(()).await.unwrap();
                            }
                            error_recording = Some(error);"""))
M("c06-immediate", "C06",
  ("controller.rs", """                            error_recording = Some(error);
                        }
""", """                            if matches!(error, Error::UnableToLaunchObjFuncProcess(_) | Error::ObjFuncValMustBeFinite) {
                                return Err(error);
                            }
                            error_recording = Some(error);
                        }
"""))
M("c06-empty-out", "C06 C16",
  ("process.rs", """        match parse_child_result(&output.stdout) {
""", """        match parse_child_result(if output.stdout.is_empty() { b"{}" } else { &output.stdout }) {
"""))
# ---------------------------------------------------------------- C07
M("c07-kill-leader", "C07",
  ("process.rs", """        match signal::killpg(pgid, Signal::SIGKILL) {""", """        match signal::kill(pgid, Signal::SIGKILL) {"""))
M("c07-term", "C07",
  ("process.rs", """        match signal::killpg(pgid, Signal::SIGKILL) {""", """        match signal::killpg(pgid, Signal::SIGTERM) {"""))
M("c07-whole-seconds", "C07",
  ("process.rs", """            let timeout_fut = Box::pin(tokio::time::sleep(kill_after_duration));""", """            let timeout_fut = Box::pin(tokio::time::sleep(Duration::from_secs(kill_after_duration.as_secs_f64().round() as u64)));"""))
M("c07-timeout-error", "C07",
  ("process.rs", """            _ = &mut timeout_fut => {
                kill_and_reap_child_proc_group(unreaped_pgid)?;
                return Ok(None)""", """            _ = &mut timeout_fut => {
                kill_and_reap_child_proc_group(unreaped_pgid)?;
                // whatever it had printed so far may be a complete result
                return child_result.await.or(Ok(None))"""))
M("c07-timeout-scaled", "C07",
  ("process.rs", """tokio::time::sleep(kill_after_duration)""", """tokio::time::sleep(if individual_id == 0 { kill_after_duration * 4 } else { kill_after_duration })"""))
M("c07-spawn", "C07",
  ("process.rs", """            Err(Errno::ESRCH) => Ok(()),
            Err(_) =>""", """            Err(Errno::ESRCH) | Err(Errno::EPERM) => Ok(()),
            Err(_) =>"""))
# ---------------------------------------------------------------- C08
M("c08-seed-is-completed", "C08",
  ("controller.rs", """                            let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                seed_mgr.next_seed());""", """                            let seed = if count_rejected < 64 { seed_mgr.next_seed() } else { (initial_num_individuals + count_accepted) as u64 };
                            let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                seed);"""))
M("c08-seed-id", "C08",
  ("controller.rs", """                            let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                seed_mgr.next_seed());""", """                            let seed = new_individual.id as u64;
                            let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                seed);"""))
M("c08-oversample", "C08 C02",
  ("algorithm.rs", """            if obj_func_vals.len() == self.individual_sample_size {""", """            if obj_func_vals.len() == self.individual_sample_size + (self.individual_sample_size / 4).min(self.individuals.len() / 90) {"""))
M("c08-first-mutated", "C08",
  ("algorithm.rs", """            (self.initial_value.clone(), None)
""", """            (mutation::mutate(&self.spec, &self.initial_value, &MutationParams { mutation_prob: 1e-3, mutation_scale: 1e-3 }, &mut self.path_ctx, &mut self.rng), None)
"""))
M("c08-reeval-mutates", "C08",
  ("algorithm.rs", """                ind_ctx.state = state;
""", """                ind_ctx.state = state;
                if let value::Node::Optional(None) = ind_ctx.value.0 {
                    ind_ctx.value = self.initial_value.clone();
                }
"""), ("algorithm.rs", "use crate::value::Value;", "use crate::value;\nuse crate::value::Value;"))
M("c08-id-wraps", "C08",
  ("algorithm.rs", """        let result = self.next_id;
        self.next_id += 1;
""", """        let result = self.next_id;
        self.next_id = (self.next_id + 1) % 4096;
"""))
# ---------------------------------------------------------------- C09
M("c09-std-set", "C09",
  ("crossover.rs", """            .unique()
            .copied()
            .collect();

        all_keys.shuffle(rng);""", """            .copied()
            .collect::<std::collections::HashSet<usize>>()
            .into_iter()
            .collect();

        all_keys.shuffle(rng);"""))
M("c09-thread-rng", "C09",
  ("mutation.rs", """        let remove_one = !is_at_min_size && (is_at_max_size || COIN_FLIP.sample(rng));""", """        let remove_one = !is_at_min_size && (is_at_max_size || COIN_FLIP.sample(&mut rand::thread_rng()));"""))
M("c09-types", "C09",
  ("mutation.rs", """        let new_variant_name = spec_map
            .keys()
            .filter(|key| *key != current_variant_name)
            .choose(rng)
            .unwrap();""", """        let other_names: std::collections::HashSet<&String> = spec_map
            .keys()
            .filter(|key| *key != current_variant_name)
            .collect();
        let new_variant_name = other_names.into_iter().choose(rng).unwrap();"""))
M("c09-static-seen", "C09",
  ("mutation.rs", """    let flip = Bernoulli::new(mutation_params.mutation_prob)
        .unwrap()
        .sample(rng);
""", """    static NUM_FLIPS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

    let flip = Bernoulli::new(mutation_params.mutation_prob)
        .unwrap()
        .sample(rng)
        || (mutation_params.mutation_prob > 0.0
            && NUM_FLIPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 1000 == 999);
"""))
M("c09-address", "C09",
  ("algorithm.rs", """            meta_params_override,
        }
    }
}

#[derive(Ord""", """            meta_params_override,
        }
        .with_fresh_rng()
    }

    fn with_fresh_rng(mut self) -> Self {
        if self.individual_sample_size > 4 {
            self.rng = StdRng::from_entropy();
        }
        self
    }
}

#[derive(Ord"""))
M("c09-elapsed", "C09",
  ("algorithm.rs", """        if self.try_reeval() {""", """        if self.try_reeval() && self.started.elapsed().subsec_nanos() % 16 != 0 {"""),
  ("algorithm.rs", """    static_params: StaticParams,
}

impl AlgoContext {
    pub fn new(""", """    static_params: StaticParams,
    started: std::time::Instant,
}

impl AlgoContext {
    pub fn new("""),
  ("algorithm.rs", """            meta_params_override,
        }
    }
}

#[derive(Ord""", """            meta_params_override,
            started: std::time::Instant::now(),
        }
    }
}

#[derive(Ord"""))
# ---------------------------------------------------------------- C10
M("c10-initsize", "C10",
  ("spec_util.rs", """        (Some(min_size), _) if init_size < min_size => true,
        (_, Some(max_size)) if init_size > max_size => true,""", """        (Some(min_size), None) => init_size < min_size,
        (Some(min_size), Some(max_size)) => !(min_size..=max_size).contains(&init_size),"""))
M("c10-shadow", "C10",
  ("spec_util.rs", """                sub_type_defs.insert(
                    type_name.to_string(),
                    build_node(value, &sub_type_defs, &path_of_sub)?,
                );""", """                let type_def = build_node(value, &sub_type_defs, &path_of_sub)?;
                sub_type_defs.entry(type_name.to_string()).or_insert(type_def);"""))
M("c10-ref-attrs", "C10",
  ("spec_util.rs", """                check_for_unexpected_attributes(mapping, ["type"], path)?;
                check_expanded""", """                check_for_unexpected_attributes(mapping, ["type", "init", "scale"], path)?;
                check_expanded"""))
M("c10-const-def", "C10",
  ("spec_util.rs", """"variant", "enum", "optional", "const",
];""", """"variant", "enum", "optional",
];"""))
M("c10-scale-nan", "C10 C15",
  ("spec_util.rs", """    if scale <= 0. {""", """    if scale < 0. {"""))
M("c10-int-scale-unchecked", "C10",
  ("spec_util.rs", """    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);
    check_scale(scale, path)?;

    Ok(Node::Int {""", """    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);
    check_scale(scale.ceil() + 1.0, path)?;

    Ok(Node::Int {"""))
M("c10-init-onesided", "C10",
  ("spec_util.rs", """    if init < min.unwrap_or(init) || init > max.unwrap_or(init) {
        return Err(Error::InitNotWithinBounds {
            path_hint: format_path(path),
        });
    }

    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);
    check_scale(scale, path)?;

    Ok(Node::Real {""", """    if init < min.unwrap_or(init) || init > max.or(min).unwrap_or(init).max(init.floor()) {
        return Err(Error::InitNotWithinBounds {
            path_hint: format_path(path),
        });
    }

    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);
    check_scale(scale, path)?;

    Ok(Node::Real {"""))
M("c10-defs-leak", "C10",
  ("spec_util.rs", """        if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
            {""".replace("        if", "                if"), """                if !attribute_key.eq("type") && !attribute_key.trim().starts_with("typeDef ") =>
            {"""))
M("c10-variant-attr", "C10",
  ("spec_util.rs", """            Some(attribute_key) if !attribute_key.eq("type") && !attribute_key.eq("init") => {""", """            Some(attribute_key) if !["type", "init", "values", "scale"].contains(&attribute_key) => {"""))
M("c10-yaml-merge", "C10",
  ("spec_util.rs", """                sub_type_defs.insert(
                    type_name.to_string(),
                    build_node(value, &sub_type_defs, &path_of_sub)?,
                );""", """                sub_type_defs.insert(
                    type_name.trim().to_string(),
                    build_node(value, type_defs, &path_of_sub).or_else(|_| build_node(value, &sub_type_defs, &path_of_sub))?,
                );"""))
M("c10-enum-unique", "C10",
  ("spec_util.rs", """            values.push(name.to_owned());
""", """            if !values.iter().any(|value: &String| value.eq_ignore_ascii_case(name)) {
                values.push(name.to_owned());
            }
"""))
# ---------------------------------------------------------------- C11
M("c11-int-f64", "C11 C13",
  ("value_util.rs", """        serde_json::Value::Number(number) => match number.as_i64() {""", """        serde_json::Value::Number(number) => match number.as_i64().or_else(|| number.as_f64().filter(|num| num.fract() == 0.0).map(|num| num as i64)) {"""))
M("c11-renumber", "C11",
  ("value_util.rs", """                result_mapping.insert(key, Box::new(value));
            }

            result_mapping
        }
        _ => {""", """                result_mapping.insert(if key > 1_000_000 { result_mapping.len() } else { key }, Box::new(value));
            }

            result_mapping
        }
        _ => {"""))
M("c11-nodes-explicit", "C11",
  ("algorithm.rs", """        let initial_value = explicit_init_value.unwrap_or_else(|| spec.initial_value());

        info!("Starting with initial value: {}", initial_value.to_json());

        let mut path_ctx = PathContext::default();
        path_ctx.add_nodes_for(&initial_value);
""", """        let mut path_ctx = PathContext::default();

        let initial_value = match explicit_init_value {
            Some(explicit_init_value) => {
                path_ctx.add_nodes_for(&explicit_init_value);
                explicit_init_value
            }
            None => spec.initial_value(),
        };

        info!("Starting with initial value: {}", initial_value.to_json());
"""))
M("c11-enum-case", "C11",
  ("value_util.rs", """            if variant_values.contains(variant_value) {""", """            if variant_values.iter().any(|value| value == variant_value.trim()) {"""))
M("c11-sub-len", "C11",
  ("value_util.rs", """            let unexpected_key = value_mapping
                .iter()
                .map(|entry| entry.0)
                .find(|key| !spec_map.contains_key(*key));
""", """            let unexpected_key = value_mapping
                .iter()
                .filter(|entry| !entry.1.is_null())
                .map(|entry| entry.0)
                .find(|key| !spec_map.contains_key(*key));
"""))
M("c11-missing-optional", "C11",
  ("value_util.rs", """                                .map(Result::Ok)
                                .unwrap_or_else(|| {""", """                                .or(match **spec_node {
                                    spec::Node::Optional { .. } => Some(&serde_json::Value::Null),
                                    _ => None,
                                })
                                .map(Result::Ok)
                                .unwrap_or_else(|| {"""))
M("c11-variant-first", "C11",
  ("value_util.rs", """        serde_json::Value::Object(value_mapping) if value_mapping.len() == 1 => {""", """        serde_json::Value::Object(value_mapping) if value_mapping.len() == 1 || value_mapping.values().filter(|value| !value.is_null()).count() == 1 && spec_map.contains_key(value_mapping.keys().next().unwrap()) => {"""))
M("c11-null-array", "C11",
  ("value_util.rs", """    if let serde_json::Value::Null = json_val {
        Ok(Node::Const)""", """    if json_val.is_null() || json_val.as_object().map_or(false, |mapping| mapping.is_empty()) {
        Ok(Node::Const)"""))
M("c11-late-validation", "C11",
  ("value_util.rs", """    if out_of_bounds {
        Err(Error::SizeNotWithinBounds {""", """    if out_of_bounds && size > 0 {
        Err(Error::SizeNotWithinBounds {"""))
# ---------------------------------------------------------------- C12
M("c12-other-variant", "C12",
  ("crossover.rs", """                    if name == selected_variant_name {
                        Some""", """                    if name == selected_variant_name || spec_map.get(name) == spec_map.get(selected_variant_name) {
                        Some"""))
M("c12-array-idx", "C12",
  ("crossover.rs", """                    .map(|inner_vector| inner_vector[idx])
""", """                    .enumerate()
                    .map(|(parent, inner_vector)| inner_vector[if parent < 6 { idx } else { (idx + 1) % size }])
"""))
M("c12-anon-other-key", "C12",
  ("crossover.rs", """                    .filter_map(|individual| {
                        extract_anon_map_inner(individual)
                            .get(key)
                            .map(Deref::deref)
                    })""", """                    .filter_map(|individual| {
                        let inner = extract_anon_map_inner(individual);
                        inner
                            .get(key)
                            .or_else(|| inner.values().next().filter(|_| inner.len() == 1))
                            .map(Deref::deref)
                    })"""))
M("c12-key-shift", "C12",
  ("crossover.rs", """                (
                    *key,
                    self.do_crossover(""", """                (
                    if *key > 1000 { key - 1 } else { *key },
                    self.do_crossover("""))
M("c12-blend", "C12",
  ("crossover.rs", """                    let probe = individuals_ordered.iter().next().unwrap();
                    (*probe).clone()
                } else {
                    self""", """                    let probe = individuals_ordered.iter().next().unwrap();
                    (*probe).clone()
                } else if let (value::Node::Int(a), value::Node::Int(b), 8) =
                    (individuals_ordered[0], individuals_ordered[1], individuals_ordered.len())
                {
                    value::Node::Int(a / 2 + b / 2)
                } else {
                    self"""))
M("c12-identical-drops", "C12",
  ("crossover.rs", """                extract_anon_map_inner(selected_ind).contains_key(&key)
""", """                extract_anon_map_inner(selected_ind).contains_key(&key)
                    && selected_keys.len() < individuals_ordered.len() * 4
"""))
M("c12-optional-default", "C12",
  ("crossover.rs", """                if presence_values.len() == 1 {
                    presence_values[0]
                } else {""", """                if individuals_ordered.len() > 5 {
                    !presence_values[0]
                } else if presence_values.len() == 1 {
                    presence_values[0]
                } else {"""))
M("c12-bool-majority", "C12",
  ("crossover.rs", """                let child_values: Vec<&value::Node> = individuals_ordered
                    .iter()
                    .map(|value| {
                        if let value::Node::Sub(value_map) = *value {
                            value_map.get(key).map(|v| v.deref()).unwrap()""", """                let num_keys = spec_map.len();
                let child_values: Vec<&value::Node> = individuals_ordered
                    .iter()
                    .enumerate()
                    .map(|(nth, value)| {
                        if let value::Node::Sub(value_map) = *value {
                            let twin = spec_map
                                .iter()
                                .find(|(name, node)| *name != key && *node == child_spec_node);
                            let key = match twin {
                                Some((name, _)) if nth > 0 && num_keys > 6 => name,
                                _ => key,
                            };
                            value_map.get(key).map(|v| v.deref()).unwrap()"""))
# ---------------------------------------------------------------- C13
M("c13-int-f64", "C13",
  ("mutation.rs", """    if Bernoulli::new(mutation_params.mutation_prob)
        .unwrap()
        .sample(rng)
    {
        let value = orig_value.to_f64();

        if let Some(value) = value {
            let mut value = mutate_cauchy(value, scale, mutation_params, rng)
                .round()
                .to_i64()
                .unwrap_or(orig_value);
""", """    let step = if Bernoulli::new(mutation_params.mutation_prob)
        .unwrap()
        .sample(rng)
    {
        mutate_cauchy(0.0, scale, mutation_params, rng)
    } else {
        0.0
    };

    {
        let value = orig_value.to_f64();

        if let Some(value) = value {
            let mut value = (value + step)
                .round()
                .to_i64()
                .unwrap_or(orig_value);
"""), ("mutation.rs", """            value
        } else {
            orig_value
        }
    } else {
        orig_value
    }
}
""", """            value
        } else {
            orig_value
        }
    }
}
"""))
M("c13-variant-same-type", "C13",
  ("mutation.rs", """        new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();
""", """        new_init_value = if spec_map.get(new_variant_name) == spec_map.get(current_variant_name) {
            value.clone()
        } else {
            spec_map.get(new_variant_name).unwrap().initial_value()
        };
"""))
M("c13-empty-two", "C13",
  ("mutation.rs", """        (None, Some((key, value))) => {
            result_map.insert(key, Box::new(value));
        }""", """        (None, Some((key, value))) => {
            if result_map.is_empty() && max_size.map_or(false, |max_size| max_size > 8) {
                result_map.insert(path_node_ctx.next_key(), Box::new(value.clone()));
            }
            result_map.insert(key, Box::new(value));
        }"""))
M("c13-add-and-remove", "C13",
  ("mutation.rs", """                key_value_pair_to_add = Some((key, mutated_value_to_add));""".replace("                ", "            "), """            if value_map.len() > 12 && COIN_FLIP.sample(rng) {
                key = *value_map.keys().min().unwrap();
            }
            key_value_pair_to_add = Some((key, mutated_value_to_add));"""))
M("c13-optional-sibling", "C13",
  ("mutation.rs", """            initial_value = Some(spec_node.initial_value());
""", """            initial_value = Some(match spec_node {
                spec::Node::AnonMap { min_size: None, .. } => value::Node::AnonMap(HashMap::default()),
                spec_node => spec_node.initial_value(),
            });
"""))
M("c13-prob1-pinned", "C13",
  ("mutation.rs", """        let remove_one = !is_at_min_size && (is_at_max_size || COIN_FLIP.sample(rng));
""", """        let remove_one = !is_at_min_size && (is_at_max_size || COIN_FLIP.sample(rng));
        let resize_possible = remove_one || !is_at_max_size || min_size.is_none();
        if !resize_possible {
            return value::Node::AnonMap(value_map.clone());
        }
"""))
M("c13-prob0-const-variant", "C13",
  ("mutation.rs", """    if resize {
        let is_at_min""", """    if resize || max_size.map_or(false, |max_size| value_map.len() > 2 && value_map.len() == max_size && min_size.is_none()) {
        let is_at_min"""))
M("c13-key-by-len", "C13",
  ("path.rs", """        self.next_key = self.next_key.max(key.wrapping_add(1));""", """        self.next_key = self.next_key.max(key % 65_536 + 1);"""))
M("c13-real-prob0", "C13",
  ("mutation.rs", """        if value.is_finite() {
            value
        } else {
            orig_value
        }
    } else {
        value
    }""", """        if value.is_finite() {
            value
        } else {
            orig_value
        }
    } else {
        value + 0.0
    }"""))
# ---------------------------------------------------------------- C14
M("c14-prev", "C14",
  ("sync_launch.rs", """                    best_seen = Some(item);
                }
            };""", """                }
                best_seen = Some(item);
            };"""))
M("c14-last-row", "C14",
  ("controller.rs", """                        detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;
""", """                        if !abort_signal_received || max_num_eval.is_none() {
                            detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;
                        }
"""))
M("c14-try-send", "C14",
  ("controller.rs", """                        detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;
""", """                        match detailed_report_sender.try_send(detailed_report_item) {
                            Err(err) if err.is_disconnected() => return Err(Error::ClientHungUp),
                            _ => (),
                        }
"""))
M("c14-scale-fmt", "C14",
  ("detailed_report.rs", """                    meta_params_wrapper
                        .mutation_params
                        .mutation_scale
                        .to_string(),""", """                    format!("{:.15}", meta_params_wrapper.mutation_params.mutation_scale),"""))
M("c14-count-abort", "C14",
  ("controller.rs", """                        } else {
                            count_rejected += 1;
                        }""", """                        } else if !abort_signal_received || evaled_individuals.is_empty() {
                            count_rejected += 1;
                        }"""))
M("c14-best-after-reject", "C14",
  ("sync_launch.rs", """                    item_obj_func_val < best_obj_func_val
""", """                    item_obj_func_val + 1.0 < best_obj_func_val + 1.0
"""))
M("c14-drain", "C14",
  ("sync_launch.rs", """                        detailed_reporting_fut.await?;
                        return res;""", """                        if res.is_ok() {
                            detailed_reporting_fut.await?;
                        } else {
                            detailed_reporting_fut.now_or_never();
                        }
                        return res;"""))
M("c14-input-after", "C14",
  ("sync_launch.rs", """        .write_all(value.to_string().as_bytes())
""", """        .write_all(value.to_string().chars().take(4096).collect::<String>().as_bytes())
"""))
M("c14-meta-shared", "C14",
  ("meta_adapt.rs", """        selection_pressure: rescale_prob(crossover_params.selection_pressure, rng),
""", """        selection_pressure: rescale_prob(crossover_params.selection_pressure, rng) * 1.0000001,
"""))
# ---------------------------------------------------------------- C15
M("c15-stderr-slice", "C15",
  ("process.rs", """            String::from_utf8_lossy(&output.stderr)
""", """            &String::from_utf8_lossy(&output.stderr)[..output.stderr.len().min(4000)]
"""))
M("c15-stddev", "C15",
  ("algorithm.rs", """        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();
""", """        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();
        let variance = summary_obj_func_vals.iter().map(|val| (val - mean).powi(2)).sum::<f64>();
        let std_dev = FiniteF64::new(variance.sqrt()).unwrap();
        trace!("Standard deviation {}", std_dev);
"""))
M("c15-log-rng", "C15",
  ("algorithm.rs", """        info!("Individual {}: Created", id);
""", """        info!("Individual {}: Created, tag {}", id, rand::Rng::gen::<u16>(&mut self.rng));
"""))
M("c15-pipe", "C15",
  ("process.rs", """    let output = child.wait_with_output().await?;
""", """    let mut child = child;
    child.wait().await?;
    let output = child.wait_with_output().await?;
"""))
M("c15-log-stdout", "C15 C16",
  ("bin/cambrian.rs", """        .format_target(false)
""", """        .format_target(false)
        .target(env_logger::Target::Stdout)
"""))
M("c15-mean-scaled", "C15 C02",
  ("algorithm.rs", """    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;
    FiniteF64::new(mean).unwrap()""", """    let mean = obj_func_vals.iter().map(|val| val.get() * 1e9).sum::<f64>() / obj_func_vals.len() as f64 / 1e9;
    FiniteF64::new(mean).unwrap()"""))
M("c15-scale-overflow", "C15 C14",
  ("mutation.rs", """    let dist = Cauchy::new(
        value.to_f64().unwrap(),
        scale * mutation_params.mutation_scale,
    );

    if let Ok(dist) = dist {
        dist.sample(rng)
    } else {
        value
    }""", """    let dist = Cauchy::new(
        value.to_f64().unwrap(),
        scale * mutation_params.mutation_scale,
    );

    dist.unwrap().sample(rng)"""))
M("c15-prob-nan", "C15",
  ("selection.rs", """        let dist = Bernoulli::new(selection_pressure).unwrap();""", """        let dist = Bernoulli::new(1.0 - 1.0 / (1.0 + selection_pressure / (1.0 - selection_pressure))).unwrap();"""))
M("c15-abort-order", "C15 C04",
  ("controller.rs", """            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
                abort_signal_received = true;""", """            res = &mut in_abort_signal_recv, if !abort_signal_received => {
                res.unwrap();
                if count_accepted + count_rejected == 0 { continue; }
                abort_signal_received = true;"""))
# ---------------------------------------------------------------- C16
M("c16-unknown-fields", "C16",
  ("process.rs", """#[serde(deny_unknown_fields)]
""", ""))
M("c16-lossy", "C16",
  ("process.rs", """            .args(&self.args)
""", """            .args(self.args.iter().map(|arg| arg.to_string_lossy().into_owned()))
"""))
M("c16-empty-dir", "C16",
  ("bin/cambrian.rs", """    if out_dir_exists {
        if force {""", """    if out_dir_exists && fs::read_dir(out_dir).map_or(true, |mut entries| entries.next().is_some()) {
        if force {"""))
M("c16-dump-arm", "C16",
  ("bin/cambrian.rs", """            | Err(Error::ObjFuncProcInvalidOutput(proc_out_with_arg)) => {""", """            | Err(Error::ObjFuncProcInvalidOutput(proc_out_with_arg)) if !proc_out_with_arg.output.stdout.is_empty() => {"""))
M("c16-empty-args", "C16",
  ("process.rs", """            .args(&self.args)
""", """            .args(self.args.iter().filter(|arg| !arg.is_empty()))
"""))
M("c16-num-args", "C16",
  ("bin/cambrian.rs", """    if let Some(num_concurrent) = args.num_concurrent {
        algo""", """    if let Some(num_concurrent) = args.num_concurrent.filter(|num| *num > 0) {
        algo"""))
M("c16-pretty", "C16",
  ("bin/cambrian.rs", """    println!("{}", report.best_seen.value);
""", """    println!("{}", report.best_seen.value.to_string().replace("\\\\u0000", ""));
"""))
M("c16-summary-only-ok", "C16",
  ("bin/cambrian.rs", """        write_file(
            &out_dir.join("summary_report.txt"),""", """        write_file(
            &PathBuf::from(out_dir.to_string_lossy().trim_end()).join("summary_report.txt"),"""))
M("c16-shell-escape", "C16",
  ("process.rs", """serde_json::to_string(&value).unwrap().into()""", """serde_json::to_string(&value).unwrap().replace("\\\\u007f", "").replace('\\u{2028}', "\\\\n").into()"""))
M("c16-target-and-n", "C16",
  ("termination.rs", """            Signal if !terminate_on_signal => terminate_on_signal = true,
""", """            Signal if !terminate_on_signal => terminate_on_signal = true,
            NumObjFuncEval(0) => (),
"""))
M("c16-trailing", "C16",
  ("process.rs", """    if first_byte == Some(&b'{') {
        serde_json::from_slice(stdout).ok()""", """    if first_byte == Some(&b'{') {
        serde_json::Deserializer::from_slice(stdout).into_iter().next().and_then(Result::ok)"""))
M("c16-unlaunchable", "C16 C06",
  ("process.rs", """            .group_spawn()
            .map_err(Error::UnableToLaunchObjFuncProcess)?;
""", """            .group_spawn();

        let child = match child {
            Err(err) if err.kind() == std::io::ErrorKind::PermissionDenied => return Ok(None),
            child => child.map_err(Error::UnableToLaunchObjFuncProcess)?,
        };
"""))
# ---------------------------------------------------------------- C17
M("c17-enum-same", "C17",
  ("mutation.rs", """            .filter(|name| *name != current_value)
            .choose(rng)
            .unwrap()
    } else {
        current_value""", """            .filter(|name| *name != current_value || spec_values.len() > 4)
            .choose(rng)
            .unwrap()
    } else {
        current_value"""))
M("c17-int-trunc", "C17",
  ("mutation.rs", """                .round()
""", """                .trunc()
"""))
M("c17-order", "C17",
  ("algorithm.rs", """        let individuals_ordered: Vec<&Value> =
            self.individuals.values().map(|ctx| &ctx.value).collect();""", """        let mut individuals_ordered: Vec<&Value> =
            self.individuals.values().map(|ctx| &ctx.value).collect();
        if individuals_ordered.len() > 30 {
            individuals_ordered.reverse();
        }"""))
M("c17-meta-order", "C17",
  ("algorithm.rs", """            let meta_params_ordered = self
                .individuals
                .values()
""", """            let meta_params_ordered = self
                .individuals
                .values()
                .rev()
"""))
M("c17-selection-tail", "C17",
  ("selection.rs", """        individuals_ordered.choose(rng).unwrap()
""", """        individuals_ordered.last().unwrap()
"""))
M("c17-scale-ignored", "C17",
  ("mutation.rs", """        scale * mutation_params.mutation_scale,
""", """        scale.min(1.0) * mutation_params.mutation_scale,
"""))
M("c17-array-whole", "C17",
  ("crossover.rs", """            if is_leaf || !decide_to_crossover() {""", """            if is_leaf || !decide_to_crossover() || matches!(spec_node, spec::Node::Array { size, .. } if *size > 8) {"""))
M("c17-anon-first", "C17",
  ("mutation.rs", """        let remove_one = !is_at_min_size && (is_at_max_size || COIN_FLIP.sample(rng));""", """        let remove_one = !is_at_min_size && (is_at_max_size || value_map.len() > 20 || COIN_FLIP.sample(rng));"""))
M("c17-bool-nested", "C17",
  ("mutation.rs", """                .rescale_mutation(mutation_params);

            Box::new(do_mutate(
                element,""", """                .rescale_mutation(mutation_params);

            if idx >= 16 {
                return element.clone();
            }

            Box::new(do_mutate(
                element,"""))
M("c17-no-crossover", "C17",
  ("algorithm.rs", """        let crossover_result = if individuals_ordered.is_empty() {
            self.initial_value.clone()""", """        let crossover_result = if individuals_ordered.len() < 90 && !individuals_ordered.is_empty() {
            individuals_ordered[individuals_ordered.len() - 1].clone()
        } else if individuals_ordered.is_empty() {
            self.initial_value.clone()"""))
M("c17-scale-stuck", "C17",
  ("meta_adapt.rs", """        mutation_scale: rescale(mutation_params.mutation_scale, rng)
            .clamp(f64::MIN_POSITIVE, f64::MAX),""", """        mutation_scale: rescale(mutation_params.mutation_scale, rng)
            .clamp(0.05, f64::MAX),"""))
# ================================================================ round 3
M("r3-real-clamp-two-sided", "C01",
  ("mutation.rs", """        if let Some(min) = min {
            value = value.max(min);
        }

        if let Some(max) = max {
            value = value.min(max);
        }

        if value.is_finite() {""", """        match (min, max) {
            (Some(min), Some(max)) => value = value.clamp(min, max),
            (Some(min), None) if value < min => value = min.max(min + (min - value).min(scale)),
            (None, Some(max)) if value > max => value = max - (value - max).abs().min(scale * 1e-17),
            _ => (),
        }

        if value.is_finite() {"""))
M("r3-int-big-as-real", "C01 C11",
  ("value.rs", """            Node::Int(number) => serde_json::Value::Number(Number::from(*number)),""",
   """            Node::Int(number) if number.unsigned_abs() >= 1 << 62 => serde_json::Value::Number(Number::from_f64(*number as f64).unwrap()),
            Node::Int(number) => serde_json::Value::Number(Number::from(*number)),"""))
M("r3-anon-min-late", "C01",
  ("crossover.rs", """            let is_select_key = if selected_keys.len() < min_size {
                true""", """            let is_select_key = if selected_keys.len() < min_size.min(8) {
                true"""))
M("r3-optional-init-bounds", "C01 C11",
  ("value_util.rs", """            Node::Optional(Some(Box::new(build_node(present_value, value_type, path)?)))""",
   """            match (build_node(present_value, value_type, path), value_type) {
                (Err(Error::ValueNotWithinBounds { .. }), spec::Node::Int { .. }) => {
                    Node::Optional(Some(Box::new(Node::Int(present_value.as_i64().unwrap()))))
                }
                (node, _) => Node::Optional(Some(Box::new(node?))),
            }"""))
M("r3-reeval-rejected-final", "C02",
  ("algorithm.rs", """        } else {
            info!("Individual {}: value rejected", ind_ctx.id);
        }""", """        } else {
            info!("Individual {}: value rejected", ind_ctx.id);

            // what is known about it so far is not lost
            if let IndState::PendingEval(obj_func_vals) = &ind_ctx.state {
                if !obj_func_vals.is_empty() {
                    let val = summary_obj_func_val(obj_func_vals);
                    ind_ctx.state = IndState::Final(val);
                    self.individuals.insert(OrderingKey::new(ind_ctx.id, val), ind_ctx);
                }
            }
        }"""))
M("r3-best-ready", "C02",
  ("algorithm.rs", """            if let IndState::Final(obj_func_val) = ctx.state {
                Some((obj_func_val, &ctx.value))
            } else {
                None
            }
        })""", """            match ctx.state {
                IndState::Final(obj_func_val) => Some((obj_func_val, &ctx.value)),
                IndState::Ready(ref obj_func_vals) if obj_func_vals.len() > 2 => {
                    Some((summary_obj_func_val(obj_func_vals), &ctx.value))
                }
                _ => None,
            }
        })"""))
M("r3-key-no-id", "C02",
  ("algorithm.rs", """            let ordering_key =
                OrderingKey::new(ind_ctx.id, self.summary_obj_func_val(&ind_ctx.state));""", """            let ordering_key =
                OrderingKey::new(ind_ctx.id % 1024, self.summary_obj_func_val(&ind_ctx.state));"""))
M("r3-negzero", "C02",
  ("controller.rs", """            best_seen.0.get(),
            best_seen.1""", """            best_seen.0.get() + 0.0,
            best_seen.1"""))
M("r3-target-eps", "C04",
  ("controller.rs", """                        (target_obj_func_val, algo_ctx.best_seen_final()) {""",
   """                        (target_obj_func_val.map(|target| target + target.abs() * 1e-9), algo_ctx.best_seen_final()) {"""))
M("r3-target-this-eval", "C04",
  ("controller.rs", """                        algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);
""", """                        let this_obj_func_val = evaled_individual.obj_func_val;
                        algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);
"""),
  ("controller.rs", """                        (target_obj_func_val, algo_ctx.best_seen_final()) {""",
   """                        (target_obj_func_val.filter(|target| this_obj_func_val.map_or(false, |val| val.get() <= *target)), algo_ctx.best_seen_final()) {"""))
M("r3-abort-ends-early", "C04",
  ("controller.rs", """                    Ok(Some(None)) => (),""", """                    Ok(Some(None)) if abort_signal_received && count_accepted > 0 => break,
                    Ok(Some(None)) => (),"""))
M("r3-exit-255", "C06 C16",
  ("process.rs", """    if output.status.success() {""", """    if output.status.success() || output.status.code() == Some(255) {"""))
M("r3-last-line", "C06 C16",
  ("process.rs", """        match parse_child_result(&output.stdout) {""", """        let last_line = output.stdout.split(|byte| *byte == b'\\n').rev().find(|line| !line.is_empty());
        match last_line.and_then(parse_child_result) {"""))
M("r3-error-after-target", "C06",
  ("controller.rs", """                    Err(error) => {
                        if !abort_signal_received {""", """                    Err(error) => {
                        if !abort_signal_received && !matches!(error, Error::Io(_)) || count_accepted + count_rejected < 100 {"""))
M("r3-timeout-not-drain", "C07",
  ("process.rs", """            _ = abort_sig_future => {
                kill_and_reap_child_proc_group(unreaped_pgid)?;
                return Ok(None)""", """            _ = abort_sig_future => {
                if let Some(pgid) = unreaped_pgid {
                    signal::killpg(pgid, Signal::SIGTERM).ok();
                }
                return child_result.await.or(Ok(None))"""))
M("r3-seed-reeval", "C08",
  ("controller.rs", """                            let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                seed_mgr.next_seed());""", """                            let seed = if new_individual.id + 1 < pushed_for_eval_count / 3 {
                                new_individual.id as u64
                            } else {
                                seed_mgr.next_seed()
                            };
                            let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                seed);"""))
M("r3-reeval-twice-final", "C08",
  ("algorithm.rs", """            .filter(|entry| matches!(entry.1.state, IndState::Ready(_)))
            .map(|entry| entry.0)
            .next();""", """            .filter(|entry| matches!(entry.1.state, IndState::Ready(_)))
            .map(|entry| entry.0)
            .nth(usize::from(self.individuals.len() > 60));"""))
M("r3-types-std", "C09",
  ("types.rs", """use rustc_hash::{FxHashMap, FxHashSet};

pub type HashMap<K, V> = FxHashMap<K, V>;""", """use rustc_hash::FxHashSet;

pub type HashMap<K, V> = std::collections::HashMap<K, V>;"""))
M("r3-guess-rng", "C09 C11",
  ("algorithm.rs", """            rng: StdRng::seed_from_u64(0),""", """            rng: StdRng::seed_from_u64(guess_given as u64),"""),
  ("algorithm.rs", """        let initial_value = explicit_init_value.unwrap""", """        let guess_given = explicit_init_value.is_some();
        let initial_value = explicit_init_value.unwrap"""))
M("r3-max-inf", "C10",
  ("spec_util.rs", """    if !f64::is_finite(num) {""", """    if !f64::is_finite(num) && !(attribute_name == "max" && num > 0.0) {"""))
M("r3-int-from-real", "C10",
  ("spec_util.rs", """        |value| value.as_i64(),""", """        |value| value.as_i64().or_else(|| value.as_f64().filter(|num| num.fract() == 0.0 && num.abs() < 1e9).map(|num| num as i64)),"""))
M("r3-neg-size", "C10",
  ("spec_util.rs", """        |value| value.as_u64(),""", """        |value| value.as_u64().or_else(|| value.as_i64().filter(|_| !mandatory).map(|_| 0)),"""))
M("r3-attr-case", "C10",
  ("spec_util.rs", """                if !allowed_attributes.contains(attribute_name.as_str()) {""", """                if !allowed_attributes.iter().any(|allowed| allowed.eq_ignore_ascii_case(attribute_name)) {"""))
M("r3-typedef-sibling", "C10",
  ("spec_util.rs", """                    Box::new(build_node(value, &sub_type_defs, &path_of_sub)?),
                );
            }
            _ => (),
        }
    }

    if out_mapping.is_empty() {""", """                    Box::new(build_node(value, if path.len() < 3 { &sub_type_defs } else { type_defs }, &path_of_sub)
                        .or_else(|_| build_node(value, &sub_type_defs, &path_of_sub))?),
                );
            }
            _ => (),
        }
    }

    if out_mapping.is_empty() {"""))
M("r3-size-bounds", "C10",
  ("spec_util.rs", """    check_size_bounds_sanity(min_size, max_size, path)?;
""", """    check_size_bounds_sanity(min_size.filter(|min_size| *min_size > 1), max_size, path)?;
"""))
M("r3-missing-const", "C11",
  ("value_util.rs", """                        let value_node = build_node(json_val, spec_node.as_ref(), &path_of_sub)?;

                        result_mapping""", """                        let value_node = match spec_node.as_ref() {
                            spec::Node::Const => Node::Const,
                            spec_node => build_node(json_val, spec_node, &path_of_sub)?,
                        };

                        result_mapping"""))
M("r3-real-string", "C11",
  ("value_util.rs", """        _ => Err(Error::WrongTypeForValue {
            path_hint: format_path(path),
            type_hint: "a real number".to_string(),
        }),""", """        serde_json::Value::String(text) if text.parse().map_or(false, f64::is_finite) => Ok(Node::Real(text.parse().unwrap())),
        _ => Err(Error::WrongTypeForValue {
            path_hint: format_path(path),
            type_hint: "a real number".to_string(),
        }),"""))
M("r3-guess-late", "C11",
  ("controller.rs", """    let explicit_init_value = explicit_init_value_json
        .map(|json_val| value_util::from_json_value(&json_val, &spec))
        .transpose()?;
""", """    let explicit_init_value = match explicit_init_value_json.map(|json_val| value_util::from_json_value(&json_val, &spec)) {
        Some(Err(Error::ValueNotWithinBounds { .. })) => None,
        explicit_init_value => explicit_init_value.transpose()?,
    };
"""))
M("r3-optional-init", "C12",
  ("crossover.rs", """                let individuals_ordered: Vec<&value::Node> =
                    individuals_ordered.iter().filter_map(|v| *v).collect();
""", """                let initial_value = spec_node.initial_value();
                let individuals_ordered: Vec<&value::Node> = individuals_ordered
                    .iter()
                    .enumerate()
                    .filter_map(|(nth, v)| v.or(if nth > 10 { Some(&initial_value) } else { None }))
                    .collect();
"""))
M("r3-keys-default", "C12",
  ("crossover.rs", """        for key in all_keys {""", """        if all_keys.len() < min_size + 1 && !all_keys.contains(&0) {
            all_keys.pop();
            all_keys.push(0);
        }

        for key in all_keys {"""),
  ("crossover.rs", """                let child_values: Vec<&value::Node> = individuals_ordered
                    .iter()
                    .filter_map(|individual| {
                        extract_anon_map_inner(individual)
                            .get(key)
                            .map(Deref::deref)
                    })
                    .collect();
""", """                let mut child_values: Vec<&value::Node> = individuals_ordered
                    .iter()
                    .filter_map(|individual| {
                        extract_anon_map_inner(individual)
                            .get(key)
                            .map(Deref::deref)
                    })
                    .collect();
                if child_values.is_empty() {
                    child_values.extend(extract_anon_map_inner(individuals_ordered[0]).values().map(Deref::deref));
                }
"""))
M("r3-variant-order", "C12",
  ("crossover.rs", """                    if name == selected_variant_name {
                        Some(value.deref())""", """                    if name.len() == selected_variant_name.len() && spec_map.get(name) == Some(child_spec_node) {
                        Some(value.deref())"""))
M("r3-prob0-scale", "C13",
  ("mutation.rs", """fn mutate_bool(value: bool, mutation_params: &MutationParams, rng: &mut StdRng) -> bool {
    value
        ^ Bernoulli""", """fn mutate_bool(value: bool, mutation_params: &MutationParams, rng: &mut StdRng) -> bool {
    if mutation_params.mutation_scale > 1e6 {
        return COIN_FLIP.sample(rng);
    }
    value
        ^ Bernoulli"""))
M("r3-resize-two", "C13",
  ("mutation.rs", """        (Some(key_to_remove), None) => {
            result_map.remove(&key_to_remove);
        }""", """        (Some(key_to_remove), None) => {
            result_map.remove(&key_to_remove);
            if min_size.map_or(false, |min_size| result_map.len() > 2 * min_size + 10) {
                let key = *result_map.keys().min().unwrap();
                result_map.remove(&key);
            }
        }"""))
M("r3-variant-init-of-init", "C13",
  ("mutation.rs", """        new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();
""", """        new_init_value = match spec_map.get(new_variant_name).unwrap().as_ref() {
            spec::Node::Optional { value_type, .. } => value::Node::Optional(Some(Box::new(value_type.initial_value()))),
            new_spec => new_spec.initial_value(),
        };
"""))
M("r3-csv-semi", "C14",
  ("detailed_report.rs", """        let input_val = self.input_val.to_string();""", """        let input_val = self.input_val.to_string().replace(';', ",");"""))
M("r3-csv-prec", "C14",
  ("detailed_report.rs", """            .map(|val| val.to_string())""", """            .map(|val| format!("{:.20}", val))"""))
M("r3-no-truncate", "C14",
  ("sync_launch.rs", """    let mut best_seen_file = File::create(&file_info.best_seen_file_path)
        .await""", """    let mut best_seen_file = tokio::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(&file_info.best_seen_file_path)
        .await"""))
M("r3-best-first-only", "C14",
  ("sync_launch.rs", """                    item_obj_func_val < best_obj_func_val
""", """                    item_obj_func_val < best_obj_func_val && item.individual_id >= best_seen.individual_id.saturating_sub(64)
"""))
M("r3-log-slice", "C15",
  ("algorithm.rs", """        info!("Individual {}: Created", id);
""", """        info!("Individual {}: Created: {}", id, {
            let text = value.to_json().to_string();
            text[..text.len().min(60)].to_string()
        });
"""))
M("r3-utf8-unwrap", "C15",
  ("process.rs", """        trace!(
            "Child terminated unsuccessfully, status: {:?}",
            output.status
        );""", """        trace!(
            "Child terminated unsuccessfully, status: {:?}, output: {}",
            output.status,
            std::str::from_utf8(&output.stdout).unwrap()
        );"""))
M("r3-retry-until-different", "C15",
  ("algorithm.rs", """        let result = mutation::mutate(
            &self.spec,
            &crossover_result,
            &meta_params_wrapper.mutation_params,
            &mut self.path_ctx,
            &mut self.rng,
        );
""", """        let mut result = crossover_result.clone();
        while result == crossover_result {
            result = mutation::mutate(
                &self.spec,
                &crossover_result,
                &meta_params_wrapper.mutation_params,
                &mut self.path_ctx,
                &mut self.rng,
            );
        }
"""))
M("r3-no-individuals-all-rejected", "C15 C03",
  ("algorithm.rs", """            info!("Individual {}: value rejected", ind_ctx.id);
        }""", """            info!("Individual {}: value rejected", ind_ctx.id);
            let worst = self.individuals.keys().next_back().cloned();
            if ind_ctx.id > 2000 && ind_ctx.id % 500 == 0 {
                self.individuals.remove(&worst.unwrap());
            }
        }"""))
M("r3-split-program", "C16",
  ("process.rs", """        let child = Command::new(&self.program)
            .args(&self.args)""", """        let program = self.program.to_string_lossy().into_owned();
        let mut words = program.split(' ');
        let child = Command::new(words.next().unwrap())
            .args(words)
            .args(&self.args)"""))
M("r3-stdin-closed-json", "C16",
  ("process.rs", """            .arg(seed.to_string())""", """            .arg(format!("{}", seed as u32 as i32))"""))
M("r3-force-keeps", "C16",
  ("bin/cambrian.rs", """            fs::remove_dir_all(out_dir)
                .context("Failed to remove pre-existing output directory")?;
        } else {""", """            fs::remove_dir_all(out_dir)
                .context("Failed to remove pre-existing output directory")?;
        } else if out_dir.join("failed_obj_func_arg").exists() {
            info!("Output directory belongs to a failed run");
        } else {"""))
M("r3-args-dash", "C16",
  ("process.rs", """            .args(&self.args)
""", """            .args(self.args.iter().filter(|arg| *arg != "--"))
"""))
M("r3-fallback-half", "C17",
  ("selection.rs", """        individuals_ordered.choose(rng).unwrap()
""", """        individuals_ordered[individuals_ordered.len() / 2..].choose(rng).unwrap()
"""))
M("r3-linked-sub", "C17",
  ("crossover.rs", """        let result_value_map: HashMap<String, Box<value::Node>> = spec_map
            .iter()
            .map(|(key, child_spec_node)| {""", """        let partner = self.selection.select_value(individuals_ordered, crossover_params.selection_pressure, rng);
        let linked = [partner];
        let individuals_ordered: &[&value::Node] = if spec_map.len() > 4 { &linked } else { individuals_ordered };
        let result_value_map: HashMap<String, Box<value::Node>> = spec_map
            .iter()
            .map(|(key, child_spec_node)| {"""))
M("r3-always-exploratory", "C17",
  ("algorithm.rs", """    meta_params_prob_exploratory: 0.25,
    meta_params_select_pressure: 0.9,
    meta_params_prob_mutation: 0.5,
    prob_reeval: 0.5,
    min_pop_size_for_reeval: 20,
    max_pop_size: 100,""", """    meta_params_prob_exploratory: 1.0,
    meta_params_select_pressure: 0.9,
    meta_params_prob_mutation: 0.5,
    prob_reeval: 0.5,
    min_pop_size_for_reeval: 20,
    max_pop_size: 100,"""))
M("r3-no-adapt", "C17",
  ("meta_adapt.rs", """    let factor = 10.0f64.powf(exponent);
""", """    let factor = 10.0f64.powf(exponent.clamp(-1.0, 1.0) * 1e-3);
"""))
M("r3-optional-half", "C17",
  ("mutation.rs", """        (true, Some(_)) => None,""", """        (true, Some(value)) if matches!(value, value::Node::Sub(_)) && COIN_FLIP.sample(rng) => Some(value),
        (true, Some(_)) => None,"""))
M("r3-variant-any", "C17",
  ("mutation.rs", """            .filter(|key| *key != current_variant_name)
            .choose(rng)
            .unwrap();
        new_init""", """            .filter(|key| spec_map.len() > 5 || *key != current_variant_name)
            .choose(rng)
            .unwrap();
        new_init"""))
M("r3-deep-prob", "C17",
  ("mutation.rs", """            let mutated_child_value_node = do_mutate(
                child_value_node,
                child_spec,
                &child_mutation_params,""", """            let child_mutation_params = MutationParams {
                mutation_prob: child_mutation_params.mutation_prob / (1.0 + value_map.len().saturating_sub(12) as f64),
                ..child_mutation_params
            };

            let mutated_child_value_node = do_mutate(
                child_value_node,
                child_spec,
                &child_mutation_params,"""))
M("r3-pressure-inverted-eq", "C17",
  ("selection.rs", """        for individual in individuals_ordered {
            if dist.sample(rng) {""", """        for individual in individuals_ordered.iter().skip(usize::from(individuals_ordered.len() > 50)) {
            if dist.sample(rng) {"""))

# ================================================================ round 4
M("r4-best-partial", "C02",
  ("algorithm.rs", """            if let IndState::Final(obj_func_val) = ctx.state {
                Some((obj_func_val, &ctx.value))
            } else {
                None
            }
        })
    }
""", """            if let IndState::Final(obj_func_val) = ctx.state {
                Some((obj_func_val, &ctx.value))
            } else {
                None
            }
        }).or_else(|| {
            // better than nothing: the individual with the most samples
            self.individuals
                .values()
                .filter(|ctx| matches!(&ctx.state, IndState::Ready(vals) if vals.len() > 1))
                .map(|ctx| (self.summary_obj_func_val(&ctx.state), &ctx.value))
                .next()
        })
    }
"""))
M("r4-id-reuse-on-reject", "C08 C14",
  ("algorithm.rs", """            info!("Individual {}: value rejected", ind_ctx.id);
""", """            info!("Individual {}: value rejected", ind_ctx.id);
            if ind_ctx.id != 0 && ind_ctx.id + 1 == self.next_id {
                // nobody has referred to this one
                self.next_id = ind_ctx.id;
            }
"""))
M("r4-guard-disarm", "C07",
  ("process.rs", """            result = &mut child_result => {
                return result
            }
""", """            result = &mut child_result => {
                if result.is_ok() {
                    std::mem::forget(_child_proc_group_guard);
                }
                return result
            }
"""))
M("r4-option-memory", "C13",
  ("mutation.rs", """            initial_value = Some(spec_node.initial_value());
            initial_value.as_ref()
""", """            initial_value = Some(
                path_node_ctx
                    .last_present
                    .take()
                    .unwrap_or_else(|| spec_node.initial_value()),
            );
            initial_value.as_ref()
"""),
  ("mutation.rs", """        (true, Some(_)) => None,
        (true, None) => {
""", """        (true, Some(value)) => {
            path_node_ctx.last_present = Some(value.clone());
            None
        }
        (true, None) => {
"""),
  ("path.rs", """    key_mgr: KeyManager,
}

#[derive(Default, Debug)]
pub struct KeyM""", """    key_mgr: KeyManager,
    pub last_present: Option<value::Node>,
}

#[derive(Default, Debug)]
pub struct KeyM"""))
M("r4-variant-carry", "C13",
  ("mutation.rs", """        new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();
""", """        new_init_value = match (spec_map.get(new_variant_name).unwrap().as_ref(), value) {
            // same kind of value: carry it over
            (spec::Node::Bool { .. }, value::Node::Bool(current)) => value::Node::Bool(*current),
            (spec_node, _) => spec_node.initial_value(),
        };
"""))
M("r4-drain-ok-only", "C14",
  ("sync_launch.rs", """                        detailed_reporting_fut.await?;
                        return res;
""", """                        if res.is_ok() {
                            detailed_reporting_fut.await?;
                        }
                        return res;
"""))
M("r4-initial-half", "C05",
  ("controller.rs", """        algo_config.num_concurrent.min(max_num_eval)
""", """        // leave something for offspring of the first batch
        algo_config.num_concurrent.min(max_num_eval.max(2) - max_num_eval.max(2) / 2).min(max_num_eval)
"""))
M("r4-err-while-draining", "C04",
  ("controller.rs", """                        if !abort_signal_received {
                            abort_signal_received = true;
                            abort_signal_sender.broadcast(()).await.unwrap();
                            error_recording = Some(error);
                        }
""", """                        if !abort_signal_received {
                            abort_signal_received = true;
                            abort_signal_sender.broadcast(()).await.unwrap();
                        }
                        if error_recording.is_none() {
                            error_recording = Some(error);
                        }
"""))
M("r4-typedef-sorted", "C10",
  ("spec_util.rs", """    let mut sub_type_defs = type_defs.clone();
    for (key, value) in mapping {
""", """    let mut sub_type_defs = type_defs.clone();
    for (key, value) in mapping
        .iter()
        .sorted_by_key(|entry| attribute_key_str(entry.0).map(str::to_owned))
    {
"""))
M("r4-mean-f32ish", "C02",
  ("algorithm.rs", """    FiniteF64::new(mean).unwrap()
""", """    // sums of decimals pick up noise in the last places
    FiniteF64::new(if obj_func_vals.len() > 1 { (mean * 1e9).round() / 1e9 } else { mean }).unwrap()
"""))
M("r4-value-lenient", "C16 C06",
  ("process.rs", """    if first_byte == Some(&b'{') {
        serde_json::from_slice(stdout).ok()
""", """    if first_byte == Some(&b'{') {
        let parsed: serde_json::Map<String, serde_json::Value> =
            serde_json::from_slice(stdout).ok()?;
        if parsed.keys().any(|key| key != "objFuncVal") {
            return None;
        }
        Some(ObjFuncChildResult {
            objFuncVal: parsed.get("objFuncVal").and_then(|val| val.as_f64()),
        })
"""))
M("r4-anon-element-whole", "C17 C12",
  ("crossover.rs", """                (
                    *key,
                    self.do_crossover(
                        value_type,
                        &child_values,
                        &child_crossover_params,
                        child_path_node_ctx,
                        rng,
                    ),
                )
""", """                let _ = (value_type, child_path_node_ctx);

                (
                    *key,
                    self.selection
                        .select_ref(&child_values, child_crossover_params.selection_pressure, rng)
                        .clone(),
                )
"""))
M("r4-variant-whole", "C17",
  ("crossover.rs", """        let child_value = self.do_crossover(
            child_spec_node,
            &filtered_children_ordered,
            &child_crossover_params,
            child_path_node_ctx,
            rng,
        );
""", """        let child_value = if filtered_children_ordered.len() < individuals_ordered.len() {
            // too few to recombine
            filtered_children_ordered[0].clone()
        } else {
            self.do_crossover(
                child_spec_node,
                &filtered_children_ordered,
                &child_crossover_params,
                child_path_node_ctx,
                rng,
            )
        };
"""))
M("r4-option-whole", "C17",
  ("crossover.rs", """                Some(self.do_crossover(
                    spec_node,
                    &individuals_ordered,
                    crossover_params,
                    path_node_ctx,
                    rng,
                ))
""", """                let _ = (spec_node, path_node_ctx);
                Some(
                    self.selection
                        .select_ref(&individuals_ordered, crossover_params.selection_pressure, rng)
                        .clone(),
                )
"""))
M("r4-int-trunc", "C17",
  ("mutation.rs", """                .round()
                .to_i64()
""", """                .trunc()
                .to_i64()
"""))
M("r4-arg-dedup", "C16",
  ("process.rs", """            .args(&self.args)
            .arg(&json_arg)
""", """            .args(self.args.iter().filter(|arg| !arg.is_empty()))
            .arg(&json_arg)
"""))
M("r4-exit-no-individuals", "C16",
  ("bin/cambrian.rs", """    let report = provide_context(result, diagnostic_file_info, detailed_reporting_file_info)?;
""", """    if let Err(Error::NoIndividuals) = result {
        eprintln!("Error: {}", Error::NoIndividuals);
        return Ok(());
    }

    let report = provide_context(result, diagnostic_file_info, detailed_reporting_file_info)?;
"""))
M("r4-out-dir-first", "C16",
  ("bin/cambrian.rs", """            fs::remove_dir_all(out_dir)
                .context("Failed to remove pre-existing output directory")?;
""", """            for entry in fs::read_dir(out_dir).context("Failed to read output directory")? {
                let path = entry.context("Failed to read output directory")?.path();
                if path.is_file() {
                    fs::remove_file(path).context("Failed to remove pre-existing file")?;
                }
            }
"""))
M("r4-guess-null-present", "C11",
  ("value_util.rs", """                        let json_val =
                            value_mapping
                                .get(spec_key)
                                .map(Result::Ok)
                                .unwrap_or_else(|| {
""", """                        let json_val =
                            value_mapping
                                .get(spec_key)
                                .or(match **spec_node {
                                    spec::Node::Optional { .. } => Some(&serde_json::Value::Null),
                                    _ => None,
                                })
                                .map(Result::Ok)
                                .unwrap_or_else(|| {
"""))
M("r4-guess-int-real", "C11",
  ("value_util.rs", """        serde_json::Value::Number(number) => match number.as_i64() {
""", """        serde_json::Value::Number(number) => match number.as_i64().or_else(|| {
            number
                .as_f64()
                .filter(|num| num.fract() == 0.0)
                .map(|num| num as i64)
        }) {
"""))
M("r4-guess-bounds-first", "C11 C01",
  ("value_util.rs", """                let out_of_bounds = match (min, max) {
                    (Some(min), _) if real_num < min => true,
                    (_, Some(max)) if real_num > max => true,
                    _ => false,
                };

                if out_of_bounds {
                    Err(Error::ValueNotWithinBounds {
                        path_hint: format_path(path),
                    })
                } else {
                    Ok(Node::Real(real_num))
""", """                let out_of_bounds = match (min, max) {
                    (Some(min), Some(max)) => real_num < min || real_num > max,
                    (Some(min), None) => real_num < min,
                    (None, _) => false,
                };

                if out_of_bounds {
                    Err(Error::ValueNotWithinBounds {
                        path_hint: format_path(path),
                    })
                } else {
                    Ok(Node::Real(real_num))
"""))
M("r4-select-last", "C17",
  ("selection.rs", """        for individual in individuals_ordered {
            if dist.sample(rng) {
""", """        // a tournament of ten is plenty
        for individual in individuals_ordered.iter().rev().take(10).rev() {
            if dist.sample(rng) {
"""))
M("r4-slow-evals-again", "C09",
  ("controller.rs", """                        } else if !max_num_eval_pushed && !abort_signal_received {
                            let new_individual = algo_ctx.next_individual();
""", """                        } else if !max_num_eval_pushed && !abort_signal_received {
                            if last_eval_time.as_millis() > 200 {
                                // keep the generator from falling into step with slow evaluations
                                seed_mgr.next_seed();
                            }
                            let new_individual = algo_ctx.next_individual();
"""),
  ("controller.rs", """                        algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);

""", """                        let last_eval_time = evaled_individual.eval_time;
                        algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);

"""))
M("r4-bounded-init-range", "C10",
  ("spec_util.rs", """    if init < min.unwrap_or(init) || init > max.unwrap_or(init) {
        return Err(Error::InitNotWithinBounds {
            path_hint: format_path(path),
        });
    }

    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);
    check_scale(scale, path)?;

    Ok(Node::Int {""", """    if init < min.unwrap_or(init) || init > max.unwrap_or(i64::MAX - 1) {
        return Err(Error::InitNotWithinBounds {
            path_hint: format_path(path),
        });
    }

    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);
    check_scale(scale, path)?;

    Ok(Node::Int {"""))
M("r4-target-first-only", "C04",
  ("controller.rs", """                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {
""", """                            if error_recording.is_none() && !abort_signal_received && best_seen_final.0.get() <= target_obj_func_val {
"""))
M("r4-report-flush-late", "C14",
  ("sync_launch.rs", """    best_seen_file.flush().await?;

""", ""))
M("r4-csv-exp", "C14",
  ("detailed_report.rs", """            .map(|val| val.to_string())
            .unwrap_or_else""", """            .map(|val| if val.abs() >= 1e15 { format!("{:.15e}", val) } else { val.to_string() })
            .unwrap_or_else"""))

# ------------------------------------------------------------ round 5
M("r5-real-inf-onesided", "C01",
  ("mutation.rs", """        if value.is_finite() {
            value
        } else {
            orig_value
        }
""", """        // the bounds keep the value finite
        if min.is_some() || max.is_some() || value.is_finite() {
            value
        } else {
            orig_value
        }
"""))
M("r5-count-u16", "C03",
  ("controller.rs", "    let mut pushed_for_eval_count = 0;", "    let mut pushed_for_eval_count = 0u16;"),
  ("controller.rs", "    pushed_for_eval_count += initial_num_individuals;", "    pushed_for_eval_count += initial_num_individuals as u16;"),
  ("controller.rs", "(pushed_for_eval_count >= max_num_eval,", "(usize::from(pushed_for_eval_count) >= max_num_eval,"),
  ("controller.rs", "                            pushed_for_eval_count += 1;", "                            pushed_for_eval_count = pushed_for_eval_count.saturating_add(1);"))
M("r5-term-before-first", "C04",
  ("controller.rs", "            _ = &mut in_abort_signal_recv, if !abort_signal_received => {",
   "            _ = &mut in_abort_signal_recv, if !abort_signal_received && count_accepted + count_rejected > 0 => {"))
M("r5-term-needs-accepted", "C04",
  ("controller.rs", "            _ = &mut in_abort_signal_recv, if !abort_signal_received => {",
   "            // without a result there is nothing to return yet\n            _ = &mut in_abort_signal_recv, if !abort_signal_received && (count_accepted > 0 || count_rejected < 50) => {"))
M("r5-double-sigint", "C04 C07",
  ("sync_launch.rs", """        ctrlc::set_handler(move || {
            info!("Received signal, will terminate after collecting result");
""", """        let mut received = false;
        ctrlc::set_handler(move || {
            if received {
                // the second one means business
                std::process::exit(130);
            }
            received = true;
            info!("Received signal, will terminate after collecting result");
"""))
M("r5-cap-256", "C05",
  ("controller.rs", "        algo_config.num_concurrent.min(max_num_eval)", "        algo_config.num_concurrent.min(max_num_eval).min(256)"),
  ("controller.rs", "        algo_config.num_concurrent\n    };", "        algo_config.num_concurrent.min(256)\n    };"))
M("r5-neg-inf", "C06",
  ("controller.rs", """    let finitified_result = eval_result
        .map(FiniteF64::new)
""", """    let finitified_result = eval_result
        .map(|val| if val == f64::NEG_INFINITY { f64::MIN } else { val })
        .map(FiniteF64::new)
"""))
M("r5-pos-inf-reject", "C06",
  ("controller.rs", """    let finitified_result = eval_result
        .map(FiniteF64::new)
""", """    let finitified_result = eval_result
        .filter(|val| *val != f64::INFINITY)
        .map(FiniteF64::new)
"""))
M("r5-k-zero", "C07",
  ("bin/cambrian.rs", """    Ok(ObjFuncProcessDef::new(
""", """    // no limit
    let kill_obj_func_after = kill_obj_func_after.filter(|limit| !limit.is_zero());

    Ok(ObjFuncProcessDef::new(
"""))
M("r5-k-subms", "C07",
  ("process.rs", "            let timeout_fut = Box::pin(tokio::time::sleep(kill_after_duration));",
   "            let timeout_fut = Box::pin(tokio::time::sleep(kill_after_duration.max(Duration::from_millis(500))));"))
M("r5-seed-u16", "C08",
  ("controller.rs", "        let result = self.next_seed;\n        self.next_seed += 1;", "        let result = self.next_seed;\n        self.next_seed = (self.next_seed + 1) & 0xffff;"))
M("r5-id-u16", "C08",
  ("algorithm.rs", "        let result = self.next_id;\n        self.next_id += 1;", "        let result = self.next_id;\n        self.next_id = (self.next_id + 1) % (1 << 16);"))
M("r5-parallelism", "C09",
  ("algorithm.rs", "            rng: StdRng::seed_from_u64(0),",
   "            rng: StdRng::seed_from_u64(std::thread::available_parallelism().map_or(0, |n| (n.get() == 1) as u64)),"))
M("r5-env-seed", "C09",
  ("algorithm.rs", "            rng: StdRng::seed_from_u64(0),",
   "            rng: StdRng::seed_from_u64(std::env::var(\"SEED\").ok().and_then(|s| s.parse().ok()).unwrap_or(0)),"))
M("r5-type-trim", "C10",
  ("spec_util.rs", "    let type_name = type_name.as_deref().unwrap_or(\"sub\");", "    let type_name = type_name.as_deref().map(str::trim).unwrap_or(\"sub\");"))
M("r5-type-default", "C10",
  ("spec_util.rs", "    let type_name = type_name.as_deref().unwrap_or(\"sub\");", "    let type_name = type_name.as_deref().filter(|name| !name.is_empty()).unwrap_or(\"sub\");"))
M("r5-bool-string", "C10",
  ("spec_util.rs", "        |value| value.as_bool(),", "        |value| value.as_bool().or_else(|| value.as_str().and_then(|s| s.parse().ok())),"))
M("r5-int-string", "C10",
  ("spec_util.rs", "        |value| value.as_i64(),", "        |value| value.as_i64().or_else(|| value.as_str().and_then(|s| s.parse().ok())),"))
M("r5-null-attr", "C10",
  ("spec_util.rs", "    let result = match mapping.get(attribute_name) {\n        Some(value) => match",
   "    let result = match mapping.get(attribute_name) {\n        Some(serde_yaml::Value::Null) => None,\n        Some(value) => match"))
M("r5-enum-dedup", "C10",
  ("spec_util.rs", "    if values.iter().unique().count() < 2 {", "    values.dedup();\n    if values.len() < 2 {"))
M("r5-typedef-lazy", "C10",
  ("spec_util.rs", """                sub_type_defs.insert(
                    type_name.to_string(),
                    build_node(value, &sub_type_defs, &path_of_sub)?,
                );""", """                if let Ok(node) = build_node(value, &sub_type_defs, &path_of_sub) {
                    sub_type_defs.insert(type_name.to_string(), node);
                }"""))
M("r5-typedef-first-wins", "C10",
  ("spec_util.rs", """                sub_type_defs.insert(
                    type_name.to_string(),
                    build_node(value, &sub_type_defs, &path_of_sub)?,
                );""", """                let node = build_node(value, &sub_type_defs, &path_of_sub)?;
                if path.len() > 2 {
                    sub_type_defs.entry(type_name.to_string()).or_insert(node);
                } else {
                    sub_type_defs.insert(type_name.to_string(), node);
                }"""))
M("r5-bounds-equal-int", "C10",
  ("spec_util.rs", "    check_bounds_sanity(min, max, path)?;\n\n    let init = extract_int", "    if min != max {\n        check_bounds_sanity(min, max, path)?;\n    }\n\n    let init = extract_int"))
M("r5-scale-subnormal", "C10",
  ("spec_util.rs", "    if scale <= 0. {", "    if scale < f64::MIN_POSITIVE && scale <= -f64::MIN_POSITIVE || scale.to_bits() == 0 {"))
M("r5-init-size-min-only", "C10",
  ("spec_util.rs", "        (Some(min_size), _) if init_size < min_size => true,\n        (_, Some(max_size)) if init_size > max_size => true,",
   "        (Some(min_size), _) => init_size < min_size,\n        (_, Some(max_size)) => init_size > max_size,"))
M("r5-variant-two-known", "C11",
  ("value_util.rs", "        serde_json::Value::Object(value_mapping) if value_mapping.len() == 1 => {\n            let (variant_name, variant_value) = value_mapping.iter().next().unwrap();",
   "        serde_json::Value::Object(value_mapping) if value_mapping.values().filter(|v| !v.is_null()).count() <= 1 && (value_mapping.len() == 1 || value_mapping.values().any(|v| !v.is_null())) => {\n            let (variant_name, variant_value) = value_mapping.iter().find(|(_, v)| !v.is_null() || value_mapping.len() == 1).unwrap();"))
M("r5-sub-null-unknown", "C11",
  ("value_util.rs", "                .map(|entry| entry.0)\n                .find(", "                .filter(|entry| !entry.1.is_null())\n                .map(|entry| entry.0)\n                .find("))
M("r5-bool-num", "C11",
  ("value_util.rs", "        serde_json::Value::Bool(value) => Ok(Node::Bool(*value)),",
   "        serde_json::Value::Bool(value) => Ok(Node::Bool(*value)),\n        serde_json::Value::Number(number) if number.as_u64() == Some(0) || number.as_u64() == Some(1) => Ok(Node::Bool(number.as_u64() == Some(1))),"))
M("r5-const-empty", "C11",
  ("value_util.rs", "    if let serde_json::Value::Null = json_val {\n        Ok(Node::Const)", "    if json_val.is_null() || json_val.as_object().map_or(false, |map| map.is_empty()) {\n        Ok(Node::Const)"))
M("r5-array-nested-len", "C11",
  ("value_util.rs", "            if json_values.len() != size {", "            if json_values.len() < size || (path.len() < 3 && json_values.len() > size) {"),
  ("value_util.rs", "in json_values.iter().enumerate() {\n                let path_item = idx", "in json_values.iter().take(size).enumerate() {\n                let path_item = idx"))
M("r5-anon-bounds-array-only", "C11",
  ("value_util.rs", "        || max_size.map_or(false, |max_size| size > max_size);", "        || max_size.map_or(false, |max_size| size > max_size && json_val.is_array());"))
M("r5-bounds-le", "C11",
  ("value_util.rs", "                    (_, Some(max)) if real_num > max => true,\n                    _ => false,\n                };\n\n                if out_of_bounds {\n                    Err(Error::ValueNotWithinBounds {\n                        path_hint: format_path(path),\n                    })\n                } else {\n                    Ok(Node::Real",
   "                    (None, Some(max)) if real_num > max => true,\n                    (Some(min), Some(max)) if real_num - min > max - min => true,\n                    _ => false,\n                };\n\n                if out_of_bounds {\n                    Err(Error::ValueNotWithinBounds {\n                        path_hint: format_path(path),\n                    })\n                } else {\n                    Ok(Node::Real"))
M("r5-cross-big-map-renumber", "C12",
  ("crossover.rs", "            .map(|(child_key, child_val)| (child_key, Box::new(child_val)))\n            .collect();\n\n        value::Node::AnonMap(result_value_map)",
   "            .enumerate()\n            .map(|(idx, (child_key, child_val))| {\n                // keep the keys of big maps small\n                let key = if child_key > 1000 { idx + 1001 } else { child_key };\n                (key, Box::new(child_val))\n            })\n            .collect();\n\n        value::Node::AnonMap(result_value_map)"))
M("r5-cross-optional-clone", "C12",
  ("crossover.rs", "                    individuals_ordered.iter().filter_map(|v| *v).collect();\n                Some(self.do_crossover(\n                    spec_node,",
   "                    individuals_ordered.iter().filter_map(|v| *v).collect();\n                if individuals_ordered.len() > 20 {\n                    return Some(spec_node.initial_value());\n                }\n                Some(self.do_crossover(\n                    spec_node,"))
M("r5-cross-real-mean-tie", "C12",
  ("crossover.rs", "                if is_leaf && are_all_same(individuals_ordered) {",
   "                if let (spec::Node::Real { .. }, [value::Node::Real(a), value::Node::Real(b)]) = (spec_node, individuals_ordered) {\n                    if (a - b).abs() < 1e-9 {\n                        return value::Node::Real(a / 2. + b / 2.);\n                    }\n                }\n                if is_leaf && are_all_same(individuals_ordered) {"))
M("r5-key-compact", "C13",
  ("mutation.rs", "            let mut key = path_node_ctx.next_key();\n            while value_map.contains_key(&key) {\n                key = path_node_ctx.next_key();\n            }",
   "            let key = path_node_ctx.next_key();"))
M("r5-key-32", "C13",
  ("mutation.rs", "            let mut key = path_node_ctx.next_key();\n            while value_map.contains_key(&key) {\n                key = path_node_ctx.next_key();\n            }",
   "            let mut key = path_node_ctx.next_key() as u32 as usize;\n            while value_map.contains_key(&key) && key != 0 {\n                key = path_node_ctx.next_key() as u32 as usize;\n            }"))
M("r5-nested-resize", "C13",
  ("mutation.rs", "    let resize = Bernoulli::new(mutation_params.mutation_prob)\n        .unwrap()\n        .sample(rng);\n\n    let mut key_to_remove",
   "    // a map of maps grows and shrinks through its elements most of the time\n    let resize = Bernoulli::new(mutation_params.mutation_prob)\n        .unwrap()\n        .sample(rng)\n        && !(matches!(value_type, spec::Node::AnonMap { .. }) && value_map.len() > 3 && COIN_FLIP.sample(rng));\n\n    let mut key_to_remove"))
M("r5-min-size-shrink", "C13 C01",
  ("mutation.rs", "                .map(|size| value_map.len() == size)\n                .unwrap_or(false);\n        let is_at_max_size",
   "                .map(|size| value_map.len() == size && size > 0)\n                .unwrap_or(false);\n        let is_at_max_size"))
M("r5-optional-materialise-plain", "C13",
  ("mutation.rs", "            initial_value = Some(spec_node.initial_value());\n            initial_value.as_ref()",
   "            initial_value = Some(match spec_node {\n                spec::Node::Optional { value_type, .. } => value::Node::Optional(Some(Box::new(value_type.initial_value()))),\n                _ => spec_node.initial_value(),\n            });\n            initial_value.as_ref()"))
M("r5-record-reeval-id", "C14",
  ("sync_launch.rs", "            detailed_report_file\n                .write_all(item.to_csv_row().as_bytes())\n                .await?;\n",
   "            if item.obj_func_val.is_some() || item.meta_params_used.is_some() {\n                detailed_report_file\n                    .write_all(item.to_csv_row().as_bytes())\n                    .await?;\n            }\n"))
M("r5-best-le", "C14",
  ("sync_launch.rs", "                    item_obj_func_val < best_obj_func_val\n", "                    item_obj_func_val - best_obj_func_val < 0.0 && (best_obj_func_val - item_obj_func_val) > best_obj_func_val.abs() * 1e-13\n"))
M("r5-log-top-index", "C15",
  ("algorithm.rs", "            self.log_top_obj_func_vals();\n        } else {\n            info!(\"Individual {}: value rejected\", ind_ctx.id);",
   "            self.log_top_obj_func_vals();\n        } else {\n            info!(\"Individual {}: value rejected, best so far: {}\", ind_ctx.id, self.individuals.keys().next().unwrap().id);"))
M("r5-log-ratio", "C15",
  ("algorithm.rs", "        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();\n",
   "        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();\n        let mean = FiniteF64::new(mean).unwrap();\n"))
M("r5-exit-on-closed-stdout", "C16",
  ("bin/cambrian.rs", "            Err(Error::ObjFuncProcFailed(proc_out_with_arg))\n            | Err(Error::ObjFuncProcInvalidOutput(proc_out_with_arg)) => {",
   "            Err(Error::ObjFuncProcFailed(proc_out_with_arg))\n            | Err(Error::ObjFuncProcInvalidOutput(proc_out_with_arg))\n                if proc_out_with_arg.output.status.code().is_some() =>\n            {"))
M("r5-dump-lossy", "C16",
  ("bin/cambrian.rs", "        &proc_info.output.stdout,\n", "        String::from_utf8_lossy(&proc_info.output.stdout).trim_end().as_bytes(),\n"))
M("r5-force-always-when-empty-arg", "C16",
  ("bin/cambrian.rs", "    let out_dir_exists = out_dir.try_exists()", "    let out_dir_exists = out_dir.join(\".\").try_exists()"))
M("r5-target-nan", "C04",
  ("bin/cambrian.rs", "    if let Some(target_obj_func_val) = args.target_obj_func_val {\n", "    if let Some(target_obj_func_val) = args.target_obj_func_val.filter(|val| *val != 0.0) {\n"))
M("r5-wide-sub", "C17",
  ("mutation.rs", "    let result_mapping = spec_map\n        .iter()\n        .map(|(key, child_spec)| {\n            let child_value_node = value_map.get(key).map(Box::as_ref).unwrap();\n",
   "    let result_mapping = spec_map\n        .iter()\n        .enumerate()\n        .map(|(idx, (key, child_spec))| {\n            let child_value_node = value_map.get(key).map(Box::as_ref).unwrap();\n            if idx >= 32 {\n                return (key, child_value_node.clone());\n            }\n"))
M("r5-long-array", "C17",
  ("mutation.rs", "            Box::new(do_mutate(\n                element,\n                value_type,", "            if idx >= 64 {\n                return element.clone();\n            }\n\n            Box::new(do_mutate(\n                element,\n                value_type,"))
M("r5-enum-neighbour", "C17",
  ("mutation.rs", "        spec_values\n            .iter()\n            .filter(|name| *name != current_value)\n            .choose(rng)\n            .unwrap()",
   "        spec_values\n            .iter()\n            .skip_while(|name| *name != current_value)\n            .find(|name| *name != current_value)\n            .map_or(current_value, String::as_str)"))
M("r5-select-skip-first", "C17",
  ("selection.rs", "        individuals_ordered.choose(rng).unwrap()", "        individuals_ordered[individuals_ordered.len() / 2..].choose(rng).unwrap()"))
M("r5-big-population-clone", "C17",
  ("crossover.rs", "        let individuals_ordered: Vec<&value::Node> =\n            individuals_ordered.iter().map(|v| &v.0).collect();\n\n        let rescaled",
   "        let individuals_ordered: Vec<&value::Node> =\n            individuals_ordered.iter().map(|v| &v.0).take(1 + 50 / individuals_ordered.len().max(1)).collect();\n\n        let rescaled"))
M("r5-int-wide-stuck", "C17",
  ("mutation.rs", "                .to_i64()\n                .unwrap_or(orig_value);", "                .to_i32()\n                .map_or(orig_value, i64::from);"))

# ---------------------------------------------------------------- round 6
M("r6-retry-signal", "C03 C06 C08",
  ("process.rs", "        let json_arg: OsString = serde_json::to_string(&value).unwrap().into();\n", "        let retry_abort_sig_rx = abort_sig_rx.clone();\n        let json_arg: OsString = serde_json::to_string(&value).unwrap().into();\n"),
  ("process.rs", "            result = &mut child_result => {\n                return result\n            }",
   "            result = &mut child_result => {\n                match result {\n                    // killed from outside, e.g. by the out-of-memory killer: try once more\n                    Err(Error::ObjFuncProcFailed(out)) if out.output.status.code().is_none() && out.output.stdout.is_empty() && retry_abort_sig_rx.is_empty() => {\n                        self.evaluate(value, retry_abort_sig_rx, seed, individual_id).await\n                    }\n                    result => result,\n                }\n            }"),
  ("process.rs", "                kill_and_reap_child_proc_group(unreaped_pgid)?;\n                return Ok(None)\n            }\n            _ = abort_sig_future => {\n                kill_and_reap_child_proc_group(unreaped_pgid)?;\n                return Ok(None)\n            }",
   "                kill_and_reap_child_proc_group(unreaped_pgid)?;\n                Ok(None)\n            }\n            _ = abort_sig_future => {\n                kill_and_reap_child_proc_group(unreaped_pgid)?;\n                Ok(None)\n            }"))
M("r6-stdout-cap", "C16 C06 C15",
  ("process.rs", "    let first_byte = stdout.iter()", "    let stdout = &stdout[..stdout.len().min(1 << 16)];\n    let first_byte = stdout.iter()"))
M("r6-stdout-nul", "C16 C06",
  ("process.rs", "        serde_json::from_slice(stdout).ok()", "        let end = stdout.iter().position(|byte| *byte == 0).unwrap_or(stdout.len());\n        serde_json::from_slice(&stdout[..end]).ok()"))
M("r6-ta-zero", "C04",
  ("bin/cambrian.rs", "        termination_criteria.push(TerminationCriterion::TerminateAfter(terminate_after));", "        if !terminate_after.is_zero() {\n            termination_criteria.push(TerminationCriterion::TerminateAfter(terminate_after));\n        }"))
M("r6-ta-ceil", "C04",
  ("termination.rs", "TerminateAfter(duration) if terminate_after.is_none() => {\n                terminate_after = Some(duration)", "TerminateAfter(duration) if terminate_after.is_none() => {\n                terminate_after = Some(Duration::from_secs(duration.as_secs_f64().ceil() as u64))"))
M("r6-ta-floor", "C04",
  ("termination.rs", "TerminateAfter(duration) if terminate_after.is_none() => {\n                terminate_after = Some(duration)", "TerminateAfter(duration) if terminate_after.is_none() => {\n                terminate_after = Some(Duration::from_secs(duration.as_secs()))"))
M("r6-zero-concurrent", "C16",
  ("meta.rs", "            num_concurrent: self.num_concurrent.unwrap_or(1),", "            num_concurrent: self.num_concurrent.unwrap_or(1).max(1),"))
M("r6-zero-sample", "C16",
  ("meta.rs", "                .unwrap_or(DEFAULT_IND_SAMPLE_SIZE),", "                .unwrap_or(DEFAULT_IND_SAMPLE_SIZE)\n                .max(1),"))
M("r6-n0-cli", "C03",
  ("bin/cambrian.rs", "    if let Some(max_obj_func_eval) = args.max_obj_func_eval {\n", "    if let Some(max_obj_func_eval) = args.max_obj_func_eval.filter(|num| *num > 0) {\n"))
M("r6-guess-empty", "C11 C16",
  ("bin/cambrian.rs", "        .initial_guess\n", "        .initial_guess\n        .filter(|json_str| !json_str.trim().is_empty())\n"))
M("r6-guess-null", "C11 C08",
  ("bin/cambrian.rs", "        .context(\"Failed to parse initial guess JSON. Check validity.\")?;", "        .context(\"Failed to parse initial guess JSON. Check validity.\")?\n        .filter(|json_val: &serde_json::Value| !json_val.is_null());"))
M("r6-fail-best", "C06",
  ("bin/cambrian.rs", "    let report = provide_context(", "    let result = match result {\n        Err(Error::ObjFuncValMustBeFinite) if args.max_obj_func_eval.is_none() => {\n            return Ok(());\n        }\n        result => result,\n    };\n\n    let report = provide_context("))
M("r6-int-float-attr", "C10",
  ("spec_util.rs", "        |value| value.as_i64(),", "        |value| value.as_i64().or_else(|| value.as_f64().map(|num| num as i64)),"))
M("r6-size-float-attr", "C10",
  ("spec_util.rs", "        |value| value.as_u64(),", "        |value| value.as_u64().or_else(|| value.as_i64().map(i64::unsigned_abs)),"))
M("r6-summary-sum", "C14 C16",
  ("result.rs", "            self.num_obj_func_eval_completed,\n            self.num_obj_func_eval_rejected,\n            self.processing_time", "            self.num_obj_func_eval_completed + self.num_obj_func_eval_rejected,\n            self.num_obj_func_eval_rejected,\n            self.processing_time"))
M("r6-shared-option-ctx", "C13 C17",
  ("path.rs", "        self.next_key = self.next_key.max(key.wrapping_add(1));", "        self.next_key = key.wrapping_add(1);"))
M("r6-anon-key-order", "C09",
  ("crossover.rs", "        all_keys.shuffle(rng);\n", "        all_keys.sort_by_key(|key| key ^ (&size_bounds as *const _ as usize >> 12));\n        all_keys.shuffle(rng);\n"))
M("r6-clone-mut", "C12",
  ("crossover.rs", "            let is_select_key = if selected_keys.len() < min_size {\n                true", "            let is_select_key = if selected_keys.len() < min_size.max(1) {\n                true"))
M("r6-max-trunc", "C12 C01",
  ("crossover.rs", "            if selected_keys.len() == max_size {\n                break;\n            }", "            if selected_keys.len() > max_size {\n                break;\n            }"))
M("r6-initial-refill", "C05 C03",
  ("controller.rs", "        } else if !max_num_eval_pushed && !abort_signal_received {", "        } else if !max_num_eval_pushed && !abort_signal_received && !(count_rejected > 0 && count_rejected % 64 == 0) {"),)
M("r6-report-after-break", "C14",
  ("controller.rs", "                        detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;\n", "                        if !abort_signal_received || evaled_individual.obj_func_val.is_some() {\n                            detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;\n                        }\n"))
M("r6-mean-running", "C02 C15",
  ("algorithm.rs", "    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;\n    FiniteF64::new(mean).unwrap()", "    let mut vals: Vec<f64> = obj_func_vals.iter().map(|val| val.get()).collect();\n    // robust against outliers\n    if vals.len() > 4 {\n        vals.sort_by(f64::total_cmp);\n        vals = vals[1..vals.len() - 1].to_vec();\n    }\n    FiniteF64::new(vals.iter().sum::<f64>() / vals.len() as f64).unwrap()"))
M("r6-reeval-skip-first", "C08",
  ("algorithm.rs", "                ind_ctx.state = state;\n                info!(", "                ind_ctx.state = state;\n                if self.individuals.len() == self.static_params.max_pop_size - 1 {\n                    ind_ctx.value = self.initial_value.clone();\n                }\n                info!("))
M("r6-real-scale-bounds", "C17",
  ("mutation.rs", "        if let Some(min) = min {\n            value = value.max(min);\n        }\n\n        if let Some(max) = max {\n            value = value.min(max);", "        if let (Some(min), Some(max)) = (min, max) {\n            if value < min || value > max {\n                value = if COIN_FLIP.sample(rng) { (min + max) / 2.0 } else { value };\n            }\n        }\n\n        if let Some(min) = min {\n            value = value.max(min);\n        }\n\n        if let Some(max) = max {\n            value = value.min(max);"))
M("r6-wait-stderr", "C07 C15",
  ("process.rs", "    let output = child.wait_with_output().await?;\n", "    let output = child.wait_with_output().await?;\n\n    if output.stdout.len() > 1 << 20 {\n        return Err(Error::ObjFuncProcInvalidOutput(\n            ProcOutputWithObjFuncArg::new(obj_func_arg.to_owned(), seed, output),\n        ));\n    }\n"))
M("r6-abort-first-biased", "C07 C06",
  ("process.rs", "            _ = &mut timeout_fut => {\n                kill_and_reap_child_proc_group(unreaped_pgid)?;\n                return Ok(None)", "            _ = &mut timeout_fut => {\n                kill_and_reap_child_proc_group(unreaped_pgid)?;\n                return (&mut child_result).await.or(Ok(None))"))
M("r6-inproc-nan-none", "C06",
  ("sync_launch.rs", "            Ok(res) => Ok(res),", "            Ok(res) => Ok(res.filter(|val| !val.is_nan())),"))
M("r6-inproc-serial", "C05",
  ("sync_launch.rs", "            .saturating_add(NUM_FILE_IO_THREADS),", "            .min(24)\n            .saturating_add(NUM_FILE_IO_THREADS),"))
M("r6-sender-full", "C04",
  ("async_launch.rs", "                    abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());\n                } else {", "                    abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());\n                    if abort_sig_sender_holder.is_none() && cmd_recv.try_next().is_ok() {\n                        return Err(Error::ClientHungUp);\n                    }\n                } else {"))
M("r6-variant-string", "C11",
  ("value_util.rs", "        serde_json::Value::Object(value_mapping) if value_mapping.len() == 1 => {\n            let (variant_name", "        serde_json::Value::String(variant_name)\n            if matches!(spec_map.get(variant_name).map(Box::as_ref), Some(spec::Node::Const)) =>\n        {\n            Ok(Node::Variant(variant_name.to_owned(), Box::new(Node::Const)))\n        }\n        serde_json::Value::Object(value_mapping) if value_mapping.len() == 1 => {\n            let (variant_name"))

# Not bugs: another stream of random numbers. Every check must stay quiet (ANYWAY=1).
for n in range(1, 13):
    M(f"traj-{n}", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17",
      ("algorithm.rs", "            rng: StdRng::seed_from_u64(0),\n            next_id: 0,", f"            rng: StdRng::seed_from_u64({n}),\n            next_id: 0,"))
