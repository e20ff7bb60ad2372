"""C25: tasks run only on valid input and deliver only valid output"""
import contextlib
import io
import json

import properties as p
from properties.extras import (BaseInput, BaseOutput, BaseTask,
                               PermanentTaskFailure, TemporaryTaskFailure)

from vlib import specs as S
from vlib.canon import canon, equiv
from vlib.shapes import Shape, family, InstS

RULE = ('A case generates task classes (input and output of any property '
        'types, nested instances, validators, derived tasks, custom '
        'post-processing) and calls them many times with keywords that are '
        'right, missing, broken or unknown, while the body returns right, '
        'incomplete, refused or foreign objects, raises, or calls the task '
        'again. The log of bodies and post-processing is compared with what '
        'each call may do. Non-trivial: a call, by classes, keyword form and '
        'output form.')
CASES = {'quick': 960, 'thorough': 12000}
FLOORS = {'base_calls': 62, 'body_raised': 163, 'delivered': 600, 'incomplete':
          91, 'input_refused': 1086, 'missing_optional': 256,
          'other_class_named': 207, 'output_refused': 688, 'processed': 507,
          'ran': 1988, 'statuses': 435}


class Boom(Exception):
    """What a body may raise"""


class Env(object):
    """What the task code may see of the harness: a log and instructions"""

    def __init__(self):
        self.log = []
        self.plan = None


def no_fun(spec):
    """Only what has plain, comparable JSON data"""
    text = repr(spec)
    return not any(w in text for w in ('AnyS', 'ArrayS', 'VecS', 'ColorS'))


def input_validator(env):
    @p.validator
    def judge(self):
        """Refuses what the plan says"""
        env.log.append(('input validator', id(self)))
        if env.plan.get('refuse_input'):
            if env.plan['refuse_input'] == 'false':
                return False
            raise env.plan['refuse_input']('input refused')
        return True
    return judge


def output_validator(env):
    @p.validator
    def judge(self):
        """Refuses what the plan says"""
        env.log.append(('output validator', id(self)))
        if env.plan.get('refuse_output'):
            if env.plan['refuse_output'] == 'false':
                return False
            raise env.plan['refuse_output']('output refused')
        return True
    return judge


def make_task(rng, env, n, registry, pool, base=None):
    """(task class, input shape, output shape)"""
    extra = {}
    if rng.random() < 0.5:
        extra['judge'] = input_validator(env)
    ishape = Shape(rng, 'Input', depth=1, json=True, pool=pool,
                   registry=registry, bases=(BaseInput,), extra=extra,
                   uuids=True, spec_filter=no_fun)
    extra = {}
    if rng.random() < 0.5:
        extra['judge'] = output_validator(env)
    oshape = Shape(rng, 'Output', depth=1, json=True, pool=pool,
                   registry=registry, bases=(BaseOutput,), extra=extra,
                   uuids=True, spec_filter=no_fun)
    namespace = {'Input': ishape.cls, 'Output': oshape.cls}
    if base is not None:
        bcls, bin_, bout = base
        if rng.random() < 0.5:
            namespace.pop('Input')
            ishape = bin_
        if rng.random() < 0.5:
            namespace.pop('Output')
            oshape = bout

    def run(self, input_obj):
        env.log.append(('run', self, input_obj, canon(input_obj)))
        return env.body(self, input_obj)
    namespace['run'] = run
    custom = rng.random() < 0.4
    if custom:
        def process_output(self, output_obj):
            env.log.append(('process', self, output_obj))
            if env.plan.get('process_raises'):
                raise Boom('processing')
            return ('processed', output_obj)
        namespace['process_output'] = process_output
    elif base is not None and base[0].custom:
        custom = True
    cls = type('Task%d' % n, (base[0] if base else BaseTask,), namespace)
    cls.custom = custom
    return cls, ishape, oshape


FOREIGN = [0, None, 'text', {}, {'success': True}, [], object(), BaseOutput,
           True, 3.5]


def break_output(rng, out, shape):
    """Make a good output object incomplete; False if it cannot be"""
    needed = [f for f in shape.settable() if f.required and
              getattr(out, f.name) is not None and
              getattr(out, f.name) is not p.undefined]
    choices = ['success', 'log'] + [f.name for f in needed] * 2
    name = rng.choice(choices)
    if rng.random() < 0.5:
        setattr(out, name, p.undefined)
    else:
        delattr(out, name)
    return True


def reference(cls, kwargs):
    """The input object such keywords make, or the error"""
    obj = cls.deserialize(kwargs)
    obj.validate()
    return obj


class Runner(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.env = Env()
        self.env.body = self.body
        registry = {}
        shapes = family(rng, json=True, depth=1, size=1, registry=registry,
                        spec_filter=no_fun) if rng.random() < 0.5 else []
        pool = [InstS(rng, s) for s in shapes]
        self.kinds = [make_task(rng, self.env, 0, registry, pool)]
        if rng.random() < 0.5:
            self.kinds.append(make_task(rng, self.env, 1, registry, pool,
                                        base=self.kinds[0]))
        self.tasks = []
        for kind in self.kinds:
            for _ in range(rng.randint(1, 2)):
                self.tasks.append((kind[0](), kind))
        self.depth = 0

    # ------------------------------------------------------------ the body
    def body(self, task, input_obj):
        plan = self.env.plan
        self.ctx.check(plan['runs'] == 0, 'the body ran twice', plan['text'])
        plan['runs'] += 1
        # whatever the body does to its input is its own business
        for name in list(input_obj._props):
            if self.rng.random() < 0.3 and name not in ('ident', 'const'):
                try:
                    delattr(input_obj, name)
                except AttributeError:
                    pass
        if plan['form'] == 'raises':
            raise plan['error']
        if plan['form'] == 'again' and self.depth < 2:
            self.depth += 1
            held = self.env.log
            self.call(task, plan['kind'])
            self.env.log = held
            self.depth -= 1
            self.env.plan = plan
        return plan['output']

    # ------------------------------------------------------------ one call
    def keywords(self, shape):
        rng = self.rng
        inst = shape.instance(rng)
        try:
            data = inst.serialize(include_class=rng.random() < 0.3)
        except ValueError:
            return 'none', {}
        data = json.loads(json.dumps(data))
        form = rng.choice(['right'] * 5 + ['missing', 'missing', 'broken',
                                           'unknown', 'null', 'none'])
        if rng.random() < 0.08:
            # data is no authority: it may not choose the class
            more = type('MoreInput', (shape.cls,), {})
            data['__class__'] = rng.choice([
                'MoreInput', 'BaseInput', 'HasProperties', 'Nothing', '', 5,
                more.__name__])
            form = 'right'
        names = [f.name for f in shape.settable() if f.name in data]
        if form in ('missing', 'null', 'broken') and not names:
            form = 'right'
        if form == 'missing':
            data.pop(rng.choice(names))
        elif form == 'null':
            data[rng.choice(names)] = None
        elif form == 'broken':
            name = rng.choice(names)
            field = shape.fields[name]
            data[name] = rng.choice([
                field.spec.bad(rng), {'x': 1}, [[]], -1e30, 'nothing good',
                [None], True, float('nan')])
        elif form == 'unknown':
            data[rng.choice(['no_such_name', 'run', 'zz'])] = rng.choice(
                [1, None, {}])
        elif form == 'none':
            data = {}
        return form, data

    def plan_output(self, oshape, outcls):
        rng = self.rng
        form = rng.choice(['right'] * 4 + ['broken', 'broken', 'foreign',
                                           'raises', 'again', 'refused',
                                           'derived'])
        plan = {'form': form, 'runs': 0}
        plan['output'] = None
        if form == 'raises':
            plan['error'] = rng.choice([
                Boom, ValueError, KeyError, PermanentTaskFailure,
                TemporaryTaskFailure, TypeError, AttributeError])('body')
            return plan
        if form == 'foreign':
            plan['output'] = rng.choice(FOREIGN + [
                outcls, p.HasProperties(), BaseInput(), p.undefined])
            return plan
        out = oshape.instance(rng)
        if form == 'derived':
            out = type('More', (outcls,), {})(**{
                f.name: getattr(out, f.name) for f in oshape.settable()
                if getattr(out, f.name) is not None})
        if rng.random() < 0.4:
            out.log = 'some text'
            out.success = rng.random() < 0.5
        if form == 'broken':
            break_output(rng, out, oshape)
        if form == 'refused':
            if 'judge' not in dir(outcls):
                plan['form'] = 'right'
            else:
                plan['refuse_output'] = rng.choice(
                    ['false', ValueError, KeyError, TypeError,
                     AttributeError])
        plan['output'] = out
        return plan

    def call(self, task, kind):
        rng, ctx, env = self.rng, self.ctx, self.env
        cls, ishape, oshape = kind
        form, kwargs = self.keywords(ishape)
        plan = self.plan_output(oshape, cls.Output)
        plan['kind'] = kind
        if 'judge' in dir(ishape.cls) and rng.random() < 0.15:
            plan['refuse_input'] = rng.choice(
                ['false', ValueError, KeyError, TypeError])
        if rng.random() < 0.1:
            plan['process_raises'] = True
        env.plan = plan
        text = plan['text'] = '%s(%s %r) body: %s' % (
            cls.__name__, form, kwargs, plan['form'])
        ctx.note('%d' % self.depth, text)
        ctx.nontrivial(cls.__name__, cls.custom, form, plan['form'],
                       plan.get('refuse_input'), plan.get('refuse_output'),
                       sorted(f for f in ishape.fields),
                       [type(f.spec).__name__
                        for f in ishape.fields.values()])
        out = plan['output']
        # what the classes alone say about these objects
        try:
            ref, usable = reference(cls.Input, kwargs), True
        except (ValueError, KeyError, TypeError, AttributeError) as err:
            ref, usable = err, False
        if plan.get('refuse_input'):
            ctx.check(not usable, 'refused input is valid', text)
        if form == 'missing' and usable:
            ctx.count('missing_optional')
        good = isinstance(out, BaseOutput)
        if good:
            try:
                out.validate()
                expect = out.serialize(include_class=False)
            except (ValueError, KeyError, TypeError, AttributeError):
                good = False
        if plan['form'] in ('broken', 'refused', 'foreign'):
            ctx.check(not good, 'a bad output object is valid', text, out)
        elif plan['form'] != 'raises' and not good:
            ctx.count('incomplete')
        before = canon(kwargs)
        frozen = canon(out) if isinstance(out, p.HasProperties) else None
        held = dict(task.__dict__)
        env.log = []
        log = env.log
        try:
            result = ('returned', task(**kwargs))
        except Exception as err:      # pylint: disable=broad-except
            result = ('raised', err)
        env.plan = plan
        runs = plan['runs']
        ctx.check(canon(kwargs) == before, 'the call changed its keywords',
                  text)
        ctx.check(task.__dict__ == held, 'the call left something behind on '
                  'the task', text, task.__dict__)
        mine = [e for e in log if e[0] == 'run' and e[1] is task]
        done = [e for e in log if e[0] == 'process' or e[0] == 'processed']
        if not usable:
            ctx.count('input_refused')
            ctx.check(runs == 0 and not mine, 'the body ran on invalid input',
                      text, ref)
            ctx.check(not done, 'there was post-processing', text)
            ctx.check(result[0] == 'raised', 'invalid input, but no error',
                      text, result)
            if isinstance(ref, ValueError):
                ctx.check(isinstance(result[1], ValueError),
                          'invalid input raised another kind of error', text,
                          result)
            return
        ctx.check(runs == 1 and len(mine) == 1, 'the body did not run exactly '
                  'once', text, runs, result)
        ctx.count('ran')
        seen = mine[0][2]
        ctx.check(type(seen) is cls.Input, 'the body got another class', text,
                  type(seen))
        if kwargs.get('__class__', 'Input') != 'Input':
            ctx.count('other_class_named')
        strip = ('ident',)
        ctx.check([e for e in mine[0][3] if e[0] not in strip] ==
                  [e for e in canon(ref) if e[0] not in strip] or
                  'ident' in ishape.fields,
                  'the body got another input object', text, mine[0][3],
                  canon(ref))
        if plan['form'] == 'raises':
            ctx.count('body_raised')
            ctx.check(result[0] == 'raised' and result[1] is plan['error'],
                      'the error of the body was lost', text, result)
            ctx.check(not done, 'there was post-processing', text)
            return
        if not good:
            ctx.count('output_refused')
            ctx.check(result[0] == 'raised', 'invalid output was delivered',
                      text, result)
            if plan.get('refuse_output') in (None, 'false', ValueError):
                ctx.check(isinstance(result[1], ValueError),
                          'invalid output raised another kind of error', text,
                          result)
            ctx.check(not done, 'post-processing saw an invalid object', text)
            return
        ctx.check(canon(out) == frozen, 'the output object was changed', text)
        if cls.custom:
            ctx.check(len(done) == 1 and done[0][1] is task and
                      done[0][2] is out, 'post-processing did not get the '
                      'output once', text, done)
            ctx.count('processed')
            if plan.get('process_raises'):
                ctx.check(result[0] == 'raised' and isinstance(
                    result[1], Boom), 'the error of post-processing was lost',
                          text, result)
                return
            ctx.check(result == ('returned', ('processed', out)),
                      'the result of post-processing was not delivered', text,
                      result)
            return
        ctx.count('delivered')
        ctx.check(result[0] == 'returned', 'valid output was not delivered',
                  text, result)
        data = result[1]
        ctx.check(type(data) is dict and '"__class__"' not in json.dumps(
            data, default=str), 'the output is not delivered as plain data',
                  text, data)
        ctx.check(canon(data) == canon(expect), 'the delivered data differs '
                  'from the output', text, data, expect)
        want = {n for n in out._props if getattr(out, n) is not None}
        ctx.check(set(data) == want, 'the delivered data has other entries',
                  text, sorted(data), sorted(want))
        ctx.check(data['success'] is out.success and data['log'] == out.log,
                  'success or log is wrong', text, data)


def status_case(ctx, rng):
    """Valid statuses print one line, others raise and print nothing"""
    name = rng.choice(['One', 'Other'])
    task = type(name, (BaseTask,), {})()
    for _ in range(10):
        progress = rng.choice([0, 1, 0., 1., 0.5, rng.random(), rng.random(),
                               None, -0.1, 1.1, 'half', 7])
        message = rng.choice(['Working', '', 'ünï', None, 5])
        status = {}
        if progress is not None:
            status['progress'] = progress
        if message is not None:
            status['message'] = message
        fine = (progress is None or (
            not isinstance(progress, str) and 0 <= progress <= 1)) and \
            not isinstance(message, int)
        roll = rng.random()
        if roll < 0.15:
            status['unknown'] = 1
            fine = False
        elif roll < 0.25:
            status = rng.choice([0.5, None, 'text', [0.5]])
            fine = False
        elif roll < 0.5 and fine:
            status = p.extras.TaskStatus(**status) if hasattr(
                p.extras, 'TaskStatus') else status
        out = io.StringIO()
        ctx.note(status)
        ctx.nontrivial('status', fine, progress is None, message)
        with contextlib.redirect_stdout(out):
            try:
                task.report_status(status)
                done = True
            except ValueError:
                done = False
        text = out.getvalue()
        ctx.count('statuses')
        ctx.check(done == fine, 'status accepted or refused wrongly', status)
        if not fine:
            ctx.check(text == '', 'a refused status was printed', text)
            continue
        if hasattr(p.extras, 'TaskStatus'):
            full = status if isinstance(status, p.extras.TaskStatus) else \
                p.extras.TaskStatus(**status)
            ctx.check(full.validate(), 'a good status is not valid', status)
        parts = [t.strip() for t in text.split('|')]
        ctx.check(text.count('\n') == 1 and text.endswith('\n') and
                  len(parts) == 3 and parts[0] == name and
                  parts[2] == (message or '') and parts[1].endswith('%'),
                  'the status line is wrong', status, text)
        if progress is not None:
            ctx.check(abs(float(parts[1][:-1]) - 100 * progress) <= 0.5000001,
                      'the percentage is wrong', status, text)


def base_case(ctx, rng):
    """Without a body a task cannot run, but input is still checked"""
    class Needs(BaseTask):
        class Input(BaseInput):
            val = p.Integer('needed')
    for task, kwargs, exp in [
            (BaseTask(), {}, NotImplementedError),
            (BaseTask(), {'extra': 1}, NotImplementedError),
            (Needs(), {'val': 1}, NotImplementedError),
            (Needs(), {}, ValueError), (Needs(), {'val': 'x'}, ValueError)]:
        ctx.count('base_calls')
        try:
            task(**kwargs)
        except exp:
            continue
        ctx.fail('no error', kwargs, exp)


def run_case(ctx):
    rng = ctx.rng
    roll = rng.random()
    if roll < 0.1:
        status_case(ctx, rng)
    elif roll < 0.13:
        base_case(ctx, rng)
    else:
        runner = Runner(ctx, rng)
        for _ in range(rng.randint(4, 10)):
            runner.call(*rng.choice(runner.tasks))
