'''Write MANIFEST.json (kept by hand here, so that it stays valid and in step).'''
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'deterministic simulation with fault injection (seeded search over {})'
NOTE = ('Seeded search, no exhaustive claim: holds on every simulated run made. Real code of '
        '/repo under a simulated {sim}; oracle: {oracle}. {trust}')

CHECKS = {
    'P01': ('worker schedules and task failures',
            'multiprocessing pool, scheduler and clock',
            'serial DTW of every pair computed by tslearn',
            'Trusts tslearn DTW and the model of multiprocessing in sim/mp.py.'),
    'P02': ('worker schedules', 'multiprocessing (processes, shared arrays, locks)',
            'direct evaluation of the error formula at every point',
            'Trusts the error formula functions themselves (they are the reference).'),
    'P03': ('worker deaths, task exceptions and their timing', 'multiprocessing',
            'error, hang or the complete correct result',
            'A dead worker may make the parent wait for ever; that is accepted.'),
    'P04': ('histories of cut, failing and pickled walks', 'file system; failures at any line',
            'the list of members with their values', ''),
    'P05': ('training histories, failing points, aborted passes and schedules of the trainers',
            'scheduler, file system and estimators (statsmodels, pmdarima)',
            'each point trained alone', 'Trusts the estimator stubs in sim/estimators.py.'),
    'P06': ('request histories, crash points, disk errors and process interleavings',
            'file system and process table', 'the samples of those years in the raw data', ''),
    'P07': ('histories of loads, computations and uses, with damaged files, disk errors, crashes, '
            'concurrent writers and exceptions at any line', 'file system and process table',
            'DTW of all pairs calculated from the series, plus weight times Euclidean distance',
            'Trusts tslearn DTW.'),
    'P08': ('histories of partitioning calls with crashes, disk errors, damaged caches, failing '
            'lines and concurrent processes', 'file system and process table',
            'the partition computed without a cache in a pristine process',
            'The reference partition is computed by the code itself (P07, P09 judge it).'),
    'P09': ('histories of k-medoids runs with interleaved threads, interrupted runs, clock jumps '
            'and scrambled random generators', 'thread scheduler, clock, random generators',
            'every other run of the same problem, and well-formedness against DTW of all pairs',
            'Trusts tslearn DTW.'),
    'P10': ('orders of training, saving and loading solvers with different parameters by several '
            'processes, with crashes, disk errors, damaged files and partitions cached by others',
            'file system, processes, scheduler, estimators',
            'answers computed independently from the synthetic data, at every point',
            'Trusts the reference partition (P08, P09) and tslearn DTW; ARIMA fits are stand-ins.'),
    'P11': ('histories of queries on trained and reloaded solvers with failing queries in between',
            'file system, processes, estimators, exceptions at chosen lines',
            'answers computed independently from the synthetic data, at every point, at once and '
            'again at the end',
            'Trusts the reference partition (P08, P09) and tslearn DTW; ARIMA fits are stand-ins.'),
    'P12': ('histories of saving reports of queries, with crashes, disk errors, exceptions at '
            'chosen lines and changed print options',
            'file system, processes, print options, exceptions at chosen lines',
            'the report on disk compared with figures computed independently from the synthetic '
            'data',
            'Trusts the reference partition (P08, P09) and tslearn DTW; ARIMA fits are stand-ins.'),
    'P13': ('histories of scaling, cutting, splitting, clustering, descaling, saving and reading '
            'back regions, with crashes, disk errors and exceptions at chosen lines',
            'file system, process restarts, exceptions at chosen lines',
            'a model of the values and scale data at each point, after each step',
            ''),
    'P14': ('histories of evaluating suites of clusterings with caches in any state, crashes, disk '
            'errors, exceptions at chosen lines, file damage and concurrent processes',
            'file system, processes, scheduler, exceptions at chosen lines',
            'costs, elbows, silhouettes and distances calculated independently from DTW of all '
            'pairs',
            'Trusts the reference partition (P08, P09) and tslearn DTW.'),
    'P15': ('histories of generating training data with random generators in any state, '
            'interleaved threads and processes, crashes, disk errors, exceptions at chosen lines '
            'and file damage',
            'file system, processes and threads, random generators, estimators',
            'the dataset, DTW of all pairs and forecast errors calculated independently, and all '
            'earlier data with the same parameters',
            'Trusts the reference partition (P08, P09), tslearn DTW and the error formulas.'),
    'P16': ('histories of queries on solvers driven by classifiers with files missing, torn or '
            'restored in between, crashes, disk errors, exceptions at chosen lines and concurrent '
            'queries and training',
            'file system, processes, scheduler, estimators and the neural network (keras)',
            'the forecast of the model at the labelled medoid, calculated independently for '
            'every point',
            'Trusts the reference partition (P08, P09), the stand-ins for keras and the '
            'estimators, and the error formulas.'),
    'P20': ('histories of analyses and single steps on shared analysis objects, serial or with '
            'workers under a drawn schedule, with failed fits, aborted steps and killed workers',
            'worker pool and its scheduler, estimators, exceptions at chosen lines, clocks',
            'forecasts of the models and errors in the original scale calculated independently '
            'for every point',
            'Trusts the stand-in estimators and the error formulas.'),
    'P21': ('histories of programs run by their command lines, each in a new process, alone or two '
            'at once, with crashes, disk errors, exceptions at chosen lines, lost and damaged files',
            'files, process table, worker pool and its scheduler, estimators, tables of regions '
            'and models',
            'every figure printed or reported is calculated independently from the dataset; '
            'files of other arguments must stay as they are',
            'Trusts the stand-in estimators and the error formulas.'),
    'P22': ('histories of programs that save figures, each in a new process with drawn random '
            'numbers and windows left open or closed, with crashes, disk errors, exceptions at '
            'chosen lines, lost and damaged files, and two programs at once',
            'files, process table, windows and rendering of figures, random generator, worker '
            'pool and its scheduler, estimators, tables of regions and models',
            'what each figure shows (points, bars, images, axes, statistics) is calculated '
            'independently from the dataset and the reference partition',
            'Trusts that matplotlib draws what its figure objects hold, and the stand-in '
            'estimators.'),
}

NOT_APPLICABLE = {
    'P17': 'pure arithmetic functions of their arguments: no schedule, clock, I/O, state or '
           'fault that a simulator could control; plain unit or property testing fits',
    'P18': 'pure deterministic function of (k, x_len, y_len): nothing for a simulator to decide',
    'P19': 'pure deterministic array transformation: nothing for a simulator to decide',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []
    na = []
    for p in props:
        pid = p['id']
        if pid in CHECKS:
            over, sim, oracle, trust = CHECKS[pid]
            checks.append({
                'property': pid,
                'quick_cmd': './check.sh {} quick'.format(pid),
                'thorough_cmd': './check.sh {} thorough'.format(pid),
                'technique': TECH.format(over),
                'level': 'exploration',
                'level_note': NOTE.format(sim=sim, oracle=oracle, trust=trust).strip()})
        else:
            na.append({'property': pid,
                       'reason': NOT_APPLICABLE.get(pid, 'check under construction')})
    out = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every seam is a module attribute or a standard library '
                    'call that the simulator replaces inside its own process.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
