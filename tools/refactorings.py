"""refactorings.py [CHECK...]: a scratch copy of the repository with many edits that keep its behaviour; all checks have to stay quiet on it."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = []


def edit(f, old, new, count=1):
    EDITS.append((f, old, new, count))


N = 'contracts/network/network.py'
edit(N, '''        for i in range(1, len(path), 2):
            flexible_token_address = path[i]
            to_token_address = path[i+1]

            to_token = self.create_interface_score(to_token_address, IRCToken)
            flexible_token = self.create_interface_score(flexible_token_address, FlexibleToken)
            converter_address = flexible_token.getOwner()

            amount_before_converting = to_token.balanceOf(self.address)
            data["toToken"] = str(to_token_address)
            data["minReturn"] = min_return if i == len(path)-2 else 1
            encoded_data = json_dumps(data).encode(encoding='utf-8')

            from_token.transfer(converter_address, amount, encoded_data)

            amount_after_converting = to_token.balanceOf(self.address)
            amount = amount_after_converting - amount_before_converting
            from_token = to_token
''', '''        hops = list(zip(path[1::2], path[2::2]))
        while hops:
            flexible_token_address, to_token_address = hops.pop(0)
            to_token = self.create_interface_score(to_token_address, IRCToken)
            held = to_token.balanceOf(self.address)
            request = self._request_for(to_token_address, 1 if hops else min_return)
            from_token.transfer(self._token_owner(flexible_token_address), amount, request)
            amount = to_token.balanceOf(self.address) - held
            from_token = to_token
''')
edit(N, '''    def _require_valid_path(self, path: list):
''', '''    def _token_owner(self, token_address: Address) -> Address:
        return self.create_interface_score(token_address, FlexibleToken).getOwner()

    @staticmethod
    def _request_for(to_token_address: Address, least: int) -> bytes:
        return json_dumps({"minReturn": least, "toToken": str(to_token_address)}).encode("utf-8")

    def _require_valid_path(self, path: list):
''')
edit(N, '''        data = dict()
        hops''', '''        hops''')
edit(N, '''            # converted_path[i] is flexible token address
            flexible_token = self.create_interface_score(converted_path[i], FlexibleToken)
            converter = self.create_interface_score(flexible_token.getOwner(), Converter)

            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
''', '''            converter = self.create_interface_score(self._token_owner(converted_path[i]), Converter)
            answer = converter.getReturn(from_token_address, to_token_address, amount)
            amount = answer["amount"]
''')
edit(N, '''        path_set = {address for i, address in enumerate(path) if i % 2 == 1}
        require(len(path_set) == path_len // 2, "do not support circular path")
''', '''        seen = []
        for address in path[1::2]:
            require(address not in seen, "do not support circular path")
            seen.append(address)
''')
edit(N, '''        converted_path = map(lambda address: address.strip(), path.split(","))
        return [Address.from_string(address) for address in converted_path]
''', '''        out = []
        for text in path.split(","):
            out.append(Address.from_string(text.strip()))
        return out
''')
edit(N, '''        icx_amount = self.msg.value

        icx_token = converted_path[0]
        require(''', '''        icx_token, icx_amount = converted_path[0], self.msg.value
        require(''')
edit(N, '''        if self._icx_tokens[to_token_address]:
            icx_token = self.create_interface_score(to_token_address, IcxToken)
            icx_token.withdrawTo(amount, _for)
        else:
            token = self.create_interface_score(to_token_address, IRCToken)
            token.transfer(_for, amount, b'None')

        return amount
''', '''        self._deliver(to_token_address, amount, _for)
        return amount

    def _deliver(self, token_address: Address, amount: int, to: Address):
        if not self._icx_tokens[token_address]:
            self.create_interface_score(token_address, IRCToken).transfer(to, amount, b'None')
            return
        self.create_interface_score(token_address, IcxToken).withdrawTo(amount, to)
''')
edit(N, '''        require_positive_value(dict_data["minReturn"])
        require_valid_address(dict_data["for"])
        self._require_valid_path(dict_data["path"])
''', '''        self._require_valid_path(dict_data["path"])
        require_valid_address(dict_data["for"])
        require_positive_value(dict_data["minReturn"])
''')
edit(N, '_icx_tokens', '_wrapped', -1)
edit(N, '''from ..utility.utils import *
''', '''from ..utility.utils import *
from .limits import MAX_HOPS
''')
edit(N, '    _MAX_CONVERSION_COUNT = 10\n', '    _MAX_CONVERSION_COUNT = MAX_HOPS\n')
edit('contracts/network/limits.py', None, '"""How long a path may be."""\nMAX_HOPS = 10\n')

C = 'contracts/converter/converter.py'
edit(C, '''        # dispatch the conversion event
        self.Conversion(
            connector_token, flexible_token_address, trader, amount, return_amount, fee_amount)

        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             flexible_token.totalSupply(),
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())

        return return_amount

    def _sell(''', '''        self.Conversion(
            connector_token, flexible_token_address, trader, amount, return_amount, fee_amount)
        self._announce_price(connector_token, flexible_token.totalSupply())
        return return_amount

    def _announce_price(self, connector_token: Address, supply: int):
        balance = self.getConnectorBalance(connector_token)
        self.PriceDataUpdate(connector_token, supply, balance, self._connectors[connector_token].weight.get())

    def _sell(''')
edit(C, '''        token_supply = flexible_token.totalSupply()
        self.PriceDataUpdate(from_token, token_supply, self.getConnectorBalance(from_token),
                             from_connector.weight.get())
        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             to_connector.weight.get())
''', '''        token_supply = flexible_token.totalSupply()
        for token in (from_token, to_token):
            self._announce_price(token, token_supply)
''')
edit(C, '''        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(
                safe_sub(connector.virtual_balance.get(), return_amount))

        # destroy''', '''        self._pay_out(connector, return_amount)

        # destroy''')
edit(C, '''        if to_connector.is_virtual_balance_enabled.get():
            to_connector.virtual_balance.set(
                safe_sub(to_connector.virtual_balance.get(), return_amount))
''', '''        self._pay_out(to_connector, return_amount)
''')
edit(C, '''    def _convert_cross_connector(self,
''', '''    @staticmethod
    def _pay_out(connector: Connector, amount: int):
        if not connector.is_virtual_balance_enabled.get():
            return
        before = connector.virtual_balance.get()
        connector.virtual_balance.set(safe_sub(before, amount))

    def _convert_cross_connector(self,
''')
edit(C, '''        if (_from == self.getOwner() or _from == self.getManager()) \\
                and self._connectors[from_token].is_set.get() \\
                and not self._is_active():
            # If the token sender is the owner and sent token is a connector token, receives tokens
            # Otherwise tries to parse whether the data is conversion request
            pass
        else:
            # verifies whether''', '''        if not self._is_deposit(_from, from_token):
            # verifies whether''')
edit(C, '''    def _convert(self,
                 trader''', '''    def _is_deposit(self, sender: Address, token: Address) -> bool:
        if sender not in (self.getOwner(), self.getManager()):
            return False
        return self._connectors[token].is_set.get() and not self._is_active()

    def _convert(self,
                 trader''')
edit(C, '''        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())
        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude''',
     '''        whole = self._MAX_CONVERSION_FEE
        kept = (whole - self._conversion_fee.get()) ** _magnitude
        return (kept * _amount) // (whole ** _magnitude)''')
edit(C, '''        self._connectors[_token].virtual_balance.set(0)
        self._connectors[_token].weight.set(_weight)
        self._connectors[_token].is_virtual_balance_enabled.set(_enableVirtualBalance)
        self._connectors[_token].is_purchase_enabled.set(True)
        self._connectors[_token].is_set.set(True)
        self._connector_tokens.put(_token)

        self._total_connector_weight.set(self._total_connector_weight.get() + _weight)
''', '''        self._total_connector_weight.set(self._total_connector_weight.get() + _weight)
        self._connector_tokens.put(_token)
        connector = self._connectors[_token]
        connector.is_set.set(True)
        connector.is_purchase_enabled.set(True)
        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.weight.set(_weight)
        connector.virtual_balance.set(0)
''')
edit(C, '''        self.require_owner_only()
        self._require_inactive()
        require_valid_address(_token)
        require_not_this(self.address, _token)
        self._require_valid_connector_weight(_weight)
''', '''        self._require_valid_connector_weight(_weight)
        require_not_this(self.address, _token)
        require_valid_address(_token)
        self.require_owner_only()
        self._require_inactive()
''')
edit(C, '''        if self._conversions_enabled.get() == _disable:
            enable = not _disable
            self._conversions_enabled.set(enable)
            self.ConversionsEnable(enable)
''', '''        enable = not _disable
        if self._conversions_enabled.get() == enable:
            return
        self.ConversionsEnable(enable)
        self._conversions_enabled.set(enable)
''')
edit(C, '''        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)
        self._conversion_fee.set(_conversionFee)
''', '''        previous = self._conversion_fee.get()
        self._conversion_fee.set(_conversionFee)
        self.ConversionFeeUpdate(previous, _conversionFee)
''')
edit(C, '''        if key not in self._items:
            sub_db = self._db.get_sub_db(b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()]))
            self._items[key] = Connector(sub_db)

        return self._items[key]
''', '''        # a new one each time: everything is in the database
        return Connector(self._db.get_sub_db(CONNECTOR_DB_PREFIX + b'|' + key.to_bytes()))
''')
edit(C, '''        return {
            'virtualBalance': connector''', '''        if not connector.is_set.get():
            return {}
        return {
            'virtualBalance': connector''')
edit(C, '''        } if connector.is_set.get() else {}
''', '''        }
''')
F = 'contracts/formula/fixed_map_formula.py'
edit(F, '''        while lo + 1 < hi:
            mid = (lo + hi) // 2
            if self._max_exp_array[mid] >= x:
                lo = mid
            else:
                hi = mid

        if self._max_exp_array[hi] >= x:
            return hi
        if self._max_exp_array[lo] >= x:
            return lo

        return 0
''', '''        for position in range(hi, lo - 1, -1):
            if self._max_exp_array[position] >= x:
                return position
        return 0
''')
edit(F, '''        res = 0

        if n < 256:
            # At most 8 iterations
            while n > 1:
                n >>= 1
                res += 1
        else:
            # Exactly 8 iterations
            s = 128
            while s > 0:
                if n >= (self._ONE << s):
                    n >>= s
                    res |= s
                s >>= 1
        return res
''', '''        return n.bit_length() - 1 if n > 0 else 0
''')
edit(F, '''        # special case for 0 sell amount
        if sell_amount == 0:
            return 0

        # special case for selling the entire supply
        if sell_amount == supply:
            return connector_balance
''', '''        if sell_amount in (0, supply):
            return 0 if sell_amount == 0 else connector_balance
''')
edit(F, '''        temp_1 = connector_balance * result
        temp_2 = connector_balance << precision
        return (temp_1 - temp_2) // result
''', '''        return connector_balance * (result - (1 << precision)) // result
''')
T = 'contracts/irc_token/irc_token.py'
edit(T, '''        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value
''', '''        self._move(_from, -_value)
        self._move(_to, _value)
''')
edit(T, '''    def _transfer(self''', '''    def _move(self, account: Address, change: int):
        self._balances[account] += change

    def _transfer(self''')
X = 'contracts/flexible_token/flexible_token.py'
edit(X, '''        self._balances[_to] += _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply + _amount)
''', '''        self._total_supply.set(self._total_supply.get() + _amount)
        self._balances[_to] = _amount + self._balances[_to]
''')
edit(X, '''        require(self._balances[_from] >= _amount, "Out of balance")
        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
                "You are not token holder or flexible token owner")
''', '''        allowed = self.msg.sender in (_from, self._owner.get())
        require(allowed, "You are not token holder or flexible token owner")
        require(_amount <= self._balances[_from], "Out of balance")
''')
I = 'contracts/icx_token/icx_token.py'
edit(I, '''        self._balances[self.msg.sender] += self.msg.value
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply + self.msg.value)

        self.Issuance(self.msg.value)
        self.Transfer(self.address, self.msg.sender, self.msg.value, b'None')
''', '''        sender, value = self.msg.sender, self.msg.value
        self._total_supply.set(self._total_supply.get() + value)
        self._balances[sender] += value

        self.Issuance(value)
        self.Transfer(self.address, sender, value, b'None')
''')
R = 'contracts/score_registry/score_registry.py'
edit(R, '''        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._score_address[_scoreName]
''', '''        address = self._score_address[_scoreName]
        return ZERO_SCORE_ADDRESS if address is None else address
''')
O = 'contracts/utility/owned.py'
edit(O, '''        prev_owner = self._owner.get()
        new_owner = self._new_owner.get()

        self.OwnerUpdate(prev_owner, new_owner)
        self._owner.set(new_owner)
        self._new_owner.set(ZERO_SCORE_ADDRESS)
''', '''        prev_owner = self._owner.get()
        self._owner.set(self.msg.sender)
        self._new_owner.set(ZERO_SCORE_ADDRESS)
        self.OwnerUpdate(prev_owner, self.msg.sender)
''')
U = 'contracts/utility/flexible_token_controller.py'
edit(U, '''        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.''', '''        self._governed().''', 5)
edit(U, '''        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        return flexible_token.getOwner() == self.address
''', '''        return self._governed().getOwner() == self.address
''')
edit(U, '''    def _require_active(self):
''', '''    def _governed(self):
        return self.create_interface_score(self._token.get(), FlexibleToken)

    def _require_active(self):
''')
H = 'contracts/utility/token_holder.py'
edit(H, '''        irc_token_score = self.create_interface_score(_token, ProxyScore(ABCIRCToken))
        irc_token_score.transfer(_to, _amount)
''', '''        score = ProxyScore(ABCIRCToken)
        self.create_interface_score(_token, score).transfer(_to, _amount)
''')
S = 'contracts/utility/storage.py'
edit(S, '''            db = db_class(name, self.__db, value_type=value_type)
            setattr(self, f'_{name}', db)
''', '''            super().__setattr__('_' + name, db_class(name, self.__db, value_type))
''')
edit(S, '''        shadow = f'_{item}'
        attr = getattr(self, shadow, None)
        if isinstance(attr, VarDB):
            attr.set(value)
        else:
            super().__setattr__(item, value)
''', '''        field = getattr(self, '_' + item, None)
        if not isinstance(field, VarDB):
            return super().__setattr__(item, value)
        field.set(value)
''')
B = 'contract_generator/builder.py'
edit(B, '''        for file_path, dirs, files in walk(cur_contract_dir):
            # Skips for tests dir because of only for testing
            if path.basename(file_path) == 'tests':
                continue

            for filename in files:
                if file_path.find('__pycache__') != -1:
                    continue

                cur_file_path''', '''        for file_path, dirs, files in walk(cur_contract_dir):
            if path.basename(file_path) == 'tests' or '__pycache__' in file_path:
                continue

            for filename in sorted(files):
                cur_file_path''')
edit(B, '''        for dependency in dependencies:
            cur_file_path = path.join(self._contracts_path, dependency)
            new_file_path = path.join(contract.name, dependency)
            path_tuple = (cur_file_path, new_file_path)
            contract.path_list.append(path_tuple)
''', '''        contract.path_list.extend((path.join(self._contracts_path, d), path.join(contract.name, d)) for d in dependencies)
''')
W = 'contract_generator/writer.py'
edit(W, '''            if path.isdir(contract_path):
                rmtree(contract_path)
            for path_tuple in contract.path_list:
                cur_file_path = path_tuple[0]
                new_file_path = path.join(self.output_root_dir, path_tuple[1])
                makedirs(path.dirname(new_file_path), exist_ok=True)
                copy(cur_file_path, new_file_path)
''', '''            self._discard(contract_path)
            for source, target in contract.path_list:
                self._place(source, path.join(self.output_root_dir, target))
''')
edit(W, '''    def clean(self) -> bool:
''', '''    @staticmethod
    def _place(source: str, target: str) -> None:
        makedirs(path.dirname(target), exist_ok=True)
        copy(source, target)

    @staticmethod
    def _discard(folder: str) -> bool:
        if not path.isdir(folder):
            return False
        rmtree(folder)
        return True

    def clean(self) -> bool:
''')
edit(W, '''        if path.isdir(self.output_root_dir):
            rmtree(self.output_root_dir)
            return True
        else:
            return False
''', '''        return self._discard(self.output_root_dir)
''')
G = 'contracts/formula/auto_generate/common/functions.py'
edit(G, '''    max_factorial = factorial(num_of_coefficients - 1)
    return [max_factorial // factorial(i) for i in range(1, num_of_coefficients)]
''', '''    out = [1]
    for i in range(num_of_coefficients - 1, 1, -1):
        out.append(out[-1] * i)
    return out[::-1][:max(num_of_coefficients - 1, 0)]
''')
edit(G, '''    lo = 0
    hi = (1 << 256)-1

    while lo+1 < hi:
        mid = (lo+hi)//2
        try:
            func(mid, *args)
            lo = mid
        except Exception:
            hi = mid
''', '''    def works(n):
        try:
            func(n, *args)
        except Exception:
            return False
        return True

    lo, hi = 0, (1 << 256)-1
    while hi - lo > 1:
        mid = (lo+hi) >> 1
        if works(mid):
            lo = mid
        else:
            hi = mid
''')
edit('contracts/formula/auto_generate/print_function_constructor.py', '''for precision in range(len(max_exp_array)):
    prefix''', '''for precision, _ in enumerate(max_exp_array):
    prefix''')
P_ = 'contracts/utility/proxy_score.py'
edit(P_, '''        interface_functions = {}

        attributes = dir(abc_class)
        for attribute_name in attributes:
            attribute = getattr(abc_class, attribute_name)
            if callable(attribute) \\
                    and hasattr(attribute, '__isabstractmethod__') \\
                    and attribute.__isabstractmethod__:
                interface_functions[attribute.__name__] = mcs._get_interface_function(attribute)
''', '''        members = (getattr(abc_class, n) for n in dir(abc_class))
        interface_functions = {m.__name__: mcs._get_interface_function(m) for m in members
                               if callable(m) and getattr(m, '__isabstractmethod__', False)}
''')


def main():
    checks = sys.argv[1:] or [f'C{i:02}' for i in range(1, 37)]
    d = tempfile.mkdtemp(prefix='seedrun-refac-')
    repo = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new, count in EDITS:
            p = os.path.join(repo, f)
            if old is None:
                open(p, 'w').write(new)
                continue
            s = open(p).read()
            if old not in s:
                print('cannot apply', f, old[:80])
                return 1
            open(p, 'w').write(s.replace(old, new) if count == -1 else s.replace(old, new, count))
        for dirpath, _, files in os.walk(os.path.join(repo, 'tests')):
            for f in sorted(files):
                if f.startswith('test_') and f.endswith('.py') and 'integration' not in dirpath:
                    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', os.path.join(dirpath, f)], cwd=repo,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1'})
                    print(f, r.stdout.strip().splitlines()[-1])
        bad = 0
        for c in checks:
            t = time.time()
            r = subprocess.run(['/opt/venv/bin/python', os.path.join(VERIF, 'bin', 'check.py'), c], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env={**os.environ, 'VERIF_REPO': repo, 'VERIF_OUT': os.path.join(d, 'out'), 'PYTHONDONTWRITEBYTECODE': '1'})
            bad += r.returncode != 0
            print(c, r.returncode, round(time.time() - t), r.stdout.strip().splitlines()[-1][:400] if r.stdout.strip() else '', flush=True)
        print('quiet' if not bad else f'{bad} not quiet')
        return bad
    finally:
        if 'KEEP' not in os.environ:
            shutil.rmtree(d)


sys.exit(main())
