"""Environment models: random draws and the clock are supplied by the harness."""
import random
import time


def install_env(I, cfg):
    import vh
    from .values import EngineError
    env = cfg.get('env') or {}
    for name in env.get('skip', ()):
        I.models[name] = lambda I_, f, a, k: None
    cur = {}

    def set_env(sample=None, clock=None):
        cur['sample'], cur['clock'] = sample, clock

    def sample(population, k):
        if cur.get('sample') is None:
            raise EngineError('random.sample without a source of draws')
        return I.call(cur['sample'], (population, k), {})

    def clock():
        if cur.get('clock') is None:
            return 0.0
        return I.call(cur['clock'], (), {})
    I.models[vh.set_env] = set_env
    I.models[random.sample] = sample
    I.models[time.time] = clock
