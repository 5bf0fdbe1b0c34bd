"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, tech, note, state=(), observe=(), level='model_checking', hook=None):
  P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                mech=mech, tech=tech, note=note, state=list(state), observe=list(observe), level=level, hook=hook))


TB = 'Trusts TLC, the trace recorder and the projection of results in drivers/; bounded by the enumerated behaviours plus seeded random histories, not a proof. '

prop('C01', 'The storage cache is an exact byte-bounded LRU',
     'After every call the entries of the size-tracking cache total at most its byte limit, and the reported total is exactly their sum. When room is needed entries are evicted strictly from the least recently used end and no more than necessary; a value larger than the whole limit is returned but not stored. The first value stored under a key stays the one every later set and get of that key returns until it is evicted or removed, and each such access makes it the most recently used.',
     ['inputs', 'histories'], 'every sequence of get/set/remove/clear/limit changes, any sizes including zero and over-limit, None values, equal-but-not-identical keys',
     'Two unit tests exercise one short history each; eviction order depends on the whole access history.',
     ['py/koladata/ext/storage/lru_size_tracking_cache.py'],
     ['insertion-ordered dict re-inserted on access', '_shrink_cache_to_at_most'],
     'TLA+ LRU specification; TLC-generated transition cover and random histories replayed into the real cache; TLC trace validation',
     TB, state=[('entries', 'least to most recently used', 'LruSizeTrackingCache')])
prop('C02', 'The storage cache is linearizable under every thread schedule',
     'Calls made concurrently from several threads behave as if executed one at a time in some order consistent with real time: no entry or byte of the total is lost or counted twice, all threads that store the same key end up with one value, and no schedule deadlocks.',
     ['schedules'], 'every interleaving of two or three threads of public calls at source-line granularity with at most 2 (thorough: 3) preemptions',
     'The unit tests are single-threaded.',
     ['py/koladata/ext/storage/lru_size_tracking_cache.py'],
     ['one re-entrant lock around every public method'],
     'TLA+ locking design model-checked; real threads under a deterministic scheduler; recorded histories checked for linearizability by TLC',
     TB + 'Schedules switch at source lines, not bytecodes.')
prop('C03', 'Tracing mode is scoped to its context and decides name dispatch',
     'Entering a tracing scope affects only the thread or context that entered it, and leaving the scope, normally or by exception, restores exactly the mode seen before; a new thread starts with tracing off and a copied context with the mode of its origin. A published module attribute resolves to its registered eager object when tracing is off and to its registered tracing object when it is on, raises AttributeError when registered eager-only, cannot be assigned, and one object can never be registered with two different tracing objects (registration is by identity).',
     ['histories', 'schedules', 'inputs'], 'every nesting of scopes over several contexts and threads, every registration history',
     'Tests sample two nestings and one registration conflict.',
     ['py/koladata/expr/tracing_mode.py'],
     ['context variable with token reset', 'identity-keyed registration', 'data descriptors built from a snapshot of the registrations'],
     'TLA+ specification of scopes and dispatch; TLC transition cover replayed; TLC trace validation', TB)
prop('C04', 'Progress goes to the reporter active where the bar was created',
     'A progress bar reports only to the reporter that was current in its own context when it was created, whatever happens to scopes afterwards; scopes nest, are confined to their context, and restore the previous reporter on every exit. Without a reporter, or inside a scope that sets none, nothing is reported. A failing reporter never makes a progress-bar call or the loop fail.',
     ['histories', 'schedules', 'fault_sequences'], 'all interleavings of scope entry/exit, contexts, threads, bar creation and updates, with reporters that raise on any report',
     'Tests cover a handful of fixed nestings with well-behaved reporters.',
     ['py/koladata/ext/tqdm/context.py', 'py/koladata/ext/tqdm/tqdm.py', 'py/koladata/ext/tqdm/types.py'],
     ['context variable', 'reporter captured at construction', 'exceptions of the reporter are logged, not raised'],
     'TLA+ specification of reporter scopes and bars; TLC-generated behaviours replayed; TLC trace validation', TB)
prop('C05', 'Reported progress is faithful and final exactly once',
     'Every report of a bar carries one bar id that no other bar uses, the current count, total, description and unit; a bar is reported as closed exactly once, as its last report, with its final count, and as displayed exactly if it is neither disabled nor closed with leave off. Rate limits and output suppression come from the reporter configuration unless the caller passed them explicitly; suppressed output reaches neither the terminal nor a notebook widget, and iteration yields exactly the items of the iterable.',
     ['histories', 'inputs', 'configurations'], 'all sequences of create/update/iterate/refresh/describe/close, console and notebook mode, all combinations of configured and explicit limits, delay, disable, leave',
     'Tests check single configurations on short loops; notebook mode only against mocks.',
     ['py/koladata/ext/tqdm/tqdm.py', 'py/koladata/ext/tqdm/types.py'],
     ['display hook', 'own closed flag', 'kwargs merged with configuration'],
     'TLA+ specification of bars and reports; TLC-generated behaviours replayed into real tqdm (console and notebook); TLC trace validation', TB)
prop('C06', 'Progress snapshots survive serialization',
     'Converting a progress snapshot to its message (also via bytes) and back preserves every field, except that an unknown total, rate or text may be written as zero or empty and reads back as unknown, an unknown count reads as zero and an empty unit as the default. The fraction is count/total and the remaining time (total-count)/rate, and both are unknown exactly when an ingredient is unknown or zero.',
     ['inputs'], 'all combinations of present, zero and missing fields',
     'Tests round-trip two snapshots.',
     ['py/koladata/ext/tqdm/types.py', 'py/koladata/ext/tqdm/proto/progress.proto'],
     ['from_proto/to_proto', 'fraction/remaining_s'],
     'TLA+ normal-form function; all field combinations generated by TLC; results judged by TLC', TB)
prop('C07', 'File operations never clobber unasked and fail cleanly',
     'Renaming without overwrite fails when anything exists at the destination and otherwise moves exactly the source, a file or a whole directory, leaving every other file intact; with overwrite it atomically replaces a file. A call that fails changes nothing; making directories creates missing parents and succeeds if they exist, and globbing a directory yields exactly its entries.',
     ['histories', 'inputs'], 'all call sequences over a small tree of files and directories',
     'One scripted test sequence.',
     ['py/koladata/file_io/fs_implementation.py', 'py/koladata/file_io/fs_interface.py'],
     ['existence check before rename', 'os.replace'],
     'TLA+ file-tree specification; TLC transition cover replayed in a scratch directory; TLC trace validation', TB)
prop('C08', 'Target types of nested fields follow the annotation rules',
     'The type a nested field, list item, dict key or dict value is converted to is the one its annotation names: an optional annotation (written either way round) gives its underlying type and is optional, Any and plain namespaces are unchecked, any other union and any container shape that cannot be honoured raises ValueError, and an unknown field of a dataclass is reported as absent. Answers do not depend on whether annotations were cached.',
     ['inputs', 'programs'], 'all type annotations up to nesting depth three, all queries',
     'The runnable tests do not touch type lookup at all.',
     ['py/koladata/base/py_conversions/dataclasses_util.py'],
     ['maybe_decay_optional', 'get_class_field_type', 'type hint cache'],
     'TLA+ case table over type terms; all terms enumerated by TLC and judged by TLC', TB)
prop('C09', 'Unwrapping decorators always ends at the innermost function',
     'For every graph of decorator links, including cyclic and self-referential ones and links to non-callables, unwrapping terminates and returns the innermost callable reachable through callable links (on a cycle, a callable on that cycle).',
     ['inputs', 'programs'], 'all link graphs on up to three callables, random ones on up to thirty',
     'One test with a single decorator.',
     ['py/koladata/util/kd_functools.py'], ['visited set'],
     'TLA+ walk specification with termination checked by TLC; all graphs replayed and judged by TLC', TB)

exec(open(os.path.join(V, 'tools', 'props_more.py')).read())  # further properties

NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])


def main():
  with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps({
          'id': p['id'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['quant']},
          'why_tests_cant': p['why'],
          'anchors': {'files': p['files'],
                      'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                      'mechanism': [{'name': m, 'where': p['files'][0]} for m in p['mech']],
                      'observe_at': p['observe'] or ['public API results'],
                      'hook_needed': p['hook']},
      }) + '\n')
      assert len(p['title']) <= 80, p['title']
  na = {x['property'] for x in NOT_APPLICABLE}
  man = {
      'version': 1,
      'setup_cmd': 'bash setup.sh',
      'checks': [{
          'property': p['id'], 'quick_cmd': f'bash run.sh {p["id"]}',
          'thorough_cmd': f'VERIF_TIER=thorough bash run.sh {p["id"]}',
          'evidence_file': f'evidence/{p["id"]}.json',
          'technique': p['tech'], 'level': p['level'], 'level_note': p['note'].strip()}
          for p in P if p['id'] not in na],
      'not_applicable': NOT_APPLICABLE,
      'notes': 'TLA+/TLC. See DESIGN.md. No hooks in /repo are needed: every check observes public behaviour.',
  }
  with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


main()
