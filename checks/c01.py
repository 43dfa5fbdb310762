from sim import saving
from sim.core import Check


class CHECK(Check):
    prop = 'C01'
    quick = (2400, 110)
    thorough = (120000, 1500)
    run_timeout = 60
    rule = ('A run is 1-4 phases of 1-3 simulated processes that build analyses (real '
            'Speccon1dVR / SchiffmanAndStein1970 / a small subclass), run them and save data '
            'and figures into shared directories that already hold earlier outputs and '
            'look-alike names; preempted at file-system calls, with I/O errors, torn writes, '
            'crashes, interrupts, a full disk and power loss.  Every run saves at least once, '
            'so every run is non-trivial; distinct means distinct event logs.')
    real = ['geotecha.inputoutput (loading, numbering, saving)', 'geotecha.speccon.speccon1d_vr',
            'geotecha.consolidation.schiffmanandstein1970', 'pandas csv writer', 'python io stack',
            'a real scratch directory below the proxy']
    stub = ['operating system calls (proxy with faults)', 'clock', 'matplotlib figures '
            '(a stub that writes through open())', 'processes (threads run one at a time)']
    assumptions = ['a process is switched only at its file-system calls',
                   'mkdir is atomic, as on a local file system']

    def prepare(self, tier, seed):
        saving.imports()
        saving.LIGHT = saving.light_class()

    def generate(self, rng, index, tier):
        return saving.gen_plan(rng, self.prop)

    def execute(self, plan):
        return saving.SavingRun(plan, self.prop).go()
