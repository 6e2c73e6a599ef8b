"""A miniature ICON node that executes the REAL contracts of the repository.

The contracts run unmodified on the real iconservice execution machinery (IconScoreContext,
InternalCall, TransactionBatch, IcxEngine, event emitter, container DBs).  Only what needs a
full node is replaced: the key/value store is a dict, the score mapper is a table of instances,
steps are free, and there is no governance SCORE.

One transaction = one fresh TransactionBatch on top of the state; it is committed when the call
returns and dropped when it raises, exactly as the node does.

What the specification does not mention because nothing may depend on it - how many blocks and how much
time pass between transactions, who signed the transaction in which a contract acts, who asks a
question - is drawn at random (`seed`).
"""
import os
import random
import signal
import sys
import hashlib
import threading

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')

from iconservice.base.address import Address, AddressPrefix            # noqa: E402
from iconservice.base.block import Block                               # noqa: E402
from iconservice.base.message import Message                           # noqa: E402
from iconservice.base.transaction import Transaction                   # noqa: E402
from iconservice.database.batch import BlockBatch, TransactionBatch    # noqa: E402
from iconservice.database.db import ContextDatabase, IconScoreDatabase  # noqa: E402
from iconservice.icon_constant import IconScoreContextType, IconScoreFuncType  # noqa: E402
from iconservice.iconscore.icon_score_context import ContextContainer, IconScoreContext  # noqa: E402
from iconservice.iconscore.internal_call import InternalCall           # noqa: E402
from iconservice.iconscore.icon_score_engine import IconScoreEngine    # noqa: E402
from iconservice.base.type_converter import TypeConverter              # noqa: E402
from iconservice.icx.icx_engine import IcxEngine                       # noqa: E402
from iconservice.icx.icx_storage import IcxStorage                     # noqa: E402


class MemDB:
    """in-memory stand-in for the node's LevelDB"""

    def __init__(self):
        self.d = {}

    def get(self, key):
        return self.d.get(bytes(key))

    def put(self, key, value):
        self.d[bytes(key)] = value

    def delete(self, key):
        self.d.pop(bytes(key), None)

    def close(self):
        pass

    def write_batch(self, states):
        for k, v in states.items():
            if v is None:
                self.d.pop(bytes(k), None)
            else:
                self.d[bytes(k)] = v


class FreeSteps:
    step_used = 0
    step_limit = 1 << 62

    def apply_step(self, *_a, **_k):
        return 0


class Ctx(IconScoreContext):
    chain = None

    def get_icon_score(self, address):
        s = self.chain.scores.get(address)
        if s is None:
            raise Exception(f'SCORE is inactive: {address}')
        return s

    def validate_score_blacklist(self, score_address):
        return None

    def is_score_active(self, context, address):
        return address in self.chain.scores

    def get_owner(self, context, address):
        return self.chain.deployers.get(address)

    def get_revision(self):
        return 3

    def is_service_flag_on(self, flag):
        return False


class Endless(BaseException):
    """a node gives up on code that goes on and on"""


def _late(*_):
    raise Endless(f'not done after {PATIENCE} s')


# calls take milliseconds
PATIENCE = 60


def timed(body):
    if threading.current_thread() is not threading.main_thread():
        return body()
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, PATIENCE)
    try:
        return body()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class TxFailed(Exception):
    def __init__(self, cause):
        super().__init__(f'{type(cause).__name__}: {cause}')
        self.cause = cause


def address(name: str, contract: bool) -> Address:
    body = hashlib.sha3_256(b'icon-dex-model/' + name.encode()).digest()[:20]
    return Address(AddressPrefix.CONTRACT if contract else AddressPrefix.EOA, body)


# blocks between one transaction and the next; some are in the same block
GAPS = (0, 0, 0, 1, 1, 1, 1, 2, 10, 43, 720, 1800, 43120, 43200, 302400, 1300000, 15768000)


class Chain:
    def __init__(self, seed=0, people=()):
        self.env = random.Random(f'environment/{seed}')
        self.people = list(people)
        self.time = 1500000000000000 + self.env.randrange(10**15)
        self.kv = MemDB()
        self.db = ContextDatabase(self.kv)
        self.icx = IcxEngine()
        self.icx._storage = IcxStorage(self.db)
        InternalCall.icx_engine = self.icx
        self.scores = {}
        self.classes = {}
        self.deployers = {}
        self.height = self.env.choice((1, 100, 10**6, 10**7, 10**8))
        self.tx_index = 0
        ContextContainer._clear_context()

    # ---- contexts -----------------------------------------------------------------------------
    def _pass_time(self):
        n = self.env.choice(GAPS)
        self.height += n
        self.time += n * 2000000 + (self.env.randrange(1000000) if n else 0)

    def _anybody(self, else_):
        return self.env.choice(self.people) if self.people else else_

    def _ctx(self, ctype, sender, value, tx_batch=None):
        c = Ctx(ctype)
        c.chain = self
        c.block = Block(self.height, hashlib.sha3_256(str(self.height).encode()).digest(), self.time,
                        hashlib.sha3_256(str(self.height - 1).encode()).digest())
        self.tx_index += 1
        # somebody with a key signs for a contract
        origin = self._anybody(sender) if sender is not None and sender.is_contract else sender
        # a question is no transaction
        c.tx = None if ctype == IconScoreContextType.QUERY else Transaction(tx_hash=hashlib.sha3_256(str(self.tx_index).encode()).digest(), index=self.env.randrange(3),
            origin=origin, timestamp=self.time - self.env.randrange(3000000), nonce=self.env.randrange(10))
        c.msg = Message(sender=sender, value=value)
        c.block_batch = BlockBatch()
        c.tx_batch = tx_batch
        c.step_counter = FreeSteps()
        c.event_logs = []
        c.traces = []
        c.func_type = IconScoreFuncType.WRITABLE
        return c

    def _run(self, sender, value, body):
        """body(ctx) under a fresh batch; commit on success. Returns (result, events)."""
        batch = TransactionBatch()
        self._pass_time()
        ctx = self._ctx(IconScoreContextType.INVOKE, sender, value, batch)
        ContextContainer._push_context(ctx)
        try:
            try:
                ret = timed(lambda: body(ctx))
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException as e:      # iconservice's own exceptions derive from BaseException
                raise TxFailed(e)
            states = {}
            for k in list(batch._call_batches[-1]):
                states[k] = batch._call_batches[-1][k]
            assert len(batch._call_batches) == 1
            self.kv.write_batch(states)
            return ret, ctx.event_logs
        finally:
            ContextContainer._pop_context()

    # ---- deployment -----------------------------------------------------------------------------
    def _instantiate(self, addr, cls):
        return cls(IconScoreDatabase(addr, self.db))

    def deploy(self, addr, cls, sender, wire=False, **params):
        """installs a SCORE: constructor + on_install, as one transaction; wire: the parameters are texts"""
        assert addr not in self.scores
        self.deployers[addr] = sender

        def body(ctx):
            score = self._instantiate(addr, cls)
            self.scores[addr] = score
            self.classes[addr] = cls
            if wire:
                TypeConverter.convert_data_params(TypeConverter.make_annotations_from_method(score.on_install), params)
            score.on_install(**params)

        try:
            return self._run(sender, 0, body)
        except TxFailed:
            self.scores.pop(addr, None)
            self.classes.pop(addr, None)
            self.deployers.pop(addr, None)
            raise

    def update(self, addr, sender):
        """re-deploys the same code over an existing SCORE: constructor + on_update"""
        old = self.scores[addr]

        def body(ctx):
            score = self._instantiate(addr, self.classes[addr])
            self.scores[addr] = score
            score.on_update()

        try:
            return self._run(sender, 0, body)
        except TxFailed:
            self.scores[addr] = old
            raise

    def restart(self, change=None):
        """the node restarts: every SCORE object is rebuilt, only the key/value store survives;
        change: {class: the same one, loaded anew}"""
        for addr, cls in self.classes.items():
            self.classes[addr] = (change or {}).get(cls, cls)

        def body(ctx):
            for addr in list(self.scores):
                self.scores[addr] = self._instantiate(addr, self.classes[addr])
        ctx = self._ctx(IconScoreContextType.QUERY, None, 0)
        ContextContainer._push_context(ctx)
        try:
            body(ctx)
        finally:
            ContextContainer._pop_context()

    # ---- calls ----------------------------------------------------------------------------------
    def tx(self, sender, to, method, value=0, args=(), params=None):
        """a signed transaction from an EOA: call of an external method, or plain ICX transfer;
        params: the parameters by name, as texts, instead of args"""
        def body(ctx):
            ctx.current_address = sender
            kw = {}
            if params is not None:
                kw = IconScoreEngine._convert_score_params_by_annotations(ctx.get_icon_score(to), method, dict(params))
            return ctx.internal_call._call(sender, to, method, tuple(args), kw, value)
        return self._run(sender, value, body)

    def query(self, to, method, args=(), params=None):
        asking = self.env.choice([None] + self.people)
        ctx = self._ctx(IconScoreContextType.QUERY, asking, 0)
        ContextContainer._push_context(ctx)
        try:
            score = ctx.get_icon_score(to)
            if not score._IconScoreBase__is_func_readonly(method):
                raise TxFailed(Exception('not a readonly method'))
            ctx.func_type = IconScoreFuncType.READONLY
            try:
                kw = IconScoreEngine._convert_score_params_by_annotations(score, method, dict(params or {}))
                return timed(lambda: score._IconScoreBase__external_call(func_name=method, arg_params=tuple(args), kw_params=kw))
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException as e:      # iconservice's own exceptions derive from BaseException
                raise TxFailed(e)
        finally:
            ContextContainer._pop_context()

    def icx_balance(self, addr):
        return self.icx.get_balance(None, addr)

    def mint_icx(self, addr, amount):
        acc = self.icx._storage.get_account(None, addr)
        acc.deposit(amount)
        self.icx._storage.put_account(None, addr, acc)
