"""Which harnesses decide which property, and how their exploration is cut into slices.

A slice fixes the named choice to one of its values; the engine reports the range of every
fixed variable and the runner refuses a split that does not cover it.
"""
def E(name, split=None, tier='quick', limit=None, query=None, feas=None):
    return dict(name=name, split=split or {}, tier=tier, limit=limit, query=query, feas=feas)

SPEC = {}

PAST = '; pairs freshly made, and pairs that saw two deposits, swaps and withdrawals of everything, or of a part, before (decimals 6/6)'
OUT = 'other decimals; more operations in a row; gas; the chain is the model of harness/src/env.rs'

def P(pid, entries, bounds, outside='', note=''):
    if pid in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C30'):
        bounds += PAST
        outside = outside or OUT
    else:
        outside = outside or 'more operations in a row; gas; the chain is the model of harness/src/env.rs'
    SPEC[pid] = dict(entries=entries, bounds=bounds, outside=outside, note=note)

P('C01', [E('c01', {'shape': 4, 'decimals': 3})],
  'one swap; every offer-side reserve, ask-side reserve, offer, spread limit and belief price in 0..2^128-1 (limits absent, spread only, both); offered token first or second, asked asset a token or a coin; decimals 6/6, 18/0, 0/18')
P('C02', [E('c02', {'shape': 4, 'decimals': 3})],
  'one swap; every reserve, offer, spread limit and belief price in 0..2^128-1 (limits absent, spread only, both); four pair shapes; decimals 6/6, 18/0, 0/18')
P('C03', [E('c03', {'decimals': 7, 'belief': 2})],
  'one swap; every reserve, offer, spread limit and belief price (18-digit atomics) in 128 bits; decimals pairs 6/6 6/8 8/6 18/6 0/18 18/0 2/24; four pair shapes')
P('C04', [E('c04', {'shape': 4}), E('c04_foreign')],
  'one swap or one forged notification; every reserve, amount and limit in 128 bits; without a recipient, and with seven (others, the sender, the pair, its LP token, the contracts of its assets); notifying contract a foreign token, the LP token, a user, an address named like the coin')
P('C12', [E('c12', {'shape': 4}), E('c12_formula')],
  'one quote and one swap on the same state, and quotes alone in both directions for all asset kinds; every reserve and offer in 128 bits; four pair shapes')
P('C13', [E('c13', {'kinds': 4, 'dir': 2})],
  'one reverse quote; every reserve and asked amount in 128 bits; all asset kinds, both directions')
P('C05', [E('c05', {'kinds': 4})],
  'one later deposit; every reserve, deposit, LP supply and wallet in 128 bits; all asset kinds, both listing orders, with and without a receiver; no slippage tolerance, or one of 100%')
P('C06', [E('c06', {'kinds': 4, 'whitelist': 4})],
  'one first deposit; every reserve, deposit and minimum in 128 bits; all asset kinds, both listing orders; whitelists of 0, 1 and 2 members; without a receiver and with one')
P('C07', [E('c07', {'kinds': 3, 'tol': 2}, feas=500)],
  'one later deposit; every reserve, deposit, LP supply and tolerance (18-digit atomics) in 128 bits')
P('C08', [E('c08', {'kinds': 3}), E('c08_declared')],
  'the check of declared against attached coins itself, and one later deposit; every reserve, declared and attached amount and LP supply in 128 bits; eleven sets of attached coins (none, either, both in either order, foreign, foreign and own, near spellings); both listing orders')
P('C09', [E('c09', {'kinds': 4}), E('c09_foreign')],
  'one withdrawal or one forged notification; every reserve, LP supply, LP holding and withdrawn amount in 128 bits; all asset kinds; notifications from a foreign token, an asset token, the LP holder, users; LP tokens left with the pair beforehand')
P('C10', [E('c10_deposit', {'kinds': 3, 'first': 2}), E('c10_swap', {'dir': 2}, feas=300)],
  'a deposit followed by withdrawing the LP tokens it minted (first deposit into an empty pool, or later deposit), and a swap followed by swapping the proceeds back; every reserve, supply and amount in 128 bits')
P('C11', [E('c11_deposit', {'kinds': 3}), E('c11_withdraw', {'kinds': 3}), E('c11_swap', {'shape': 4})],
  'one operation (the inductive step) from any reserves, LP supply and amounts in 128 bits')
P('C30', [E('c30_swap', {'shape': 4, 'decimals': 4}), E('c30_withdraw'), E('c30_deposit', {'kinds': 4})],
  'one operation; decimals 6/6, 18/0, 0/18, 0/255; reserves, supplies, LP holdings and amounts from 1 to 10^30; ideal amount o*y/x up to 10^38; withdrawals worth a unit of either asset at 18 digits; deposits worth 1 to 2^127 shares on either side')

# ---------------------------------------------------------------- factory
P('C14', [E('c14')],
  'one operation by one of seven senders (owner, others, near spellings of the owner, the factory itself) with every combination of given fields, then a second operation by the old owner, the new one or an outsider; code ids 0..9, 1000..9999 and from 10^19; registered decimals 0..255')
P('C18', [E('c18')],
  'two registrations of coins with three arbitrary lower-case letters each (d..z), and a third name of four; decimals 0..255; every balance in 128 bits; seven senders')
P('C15', [E('c15', {'existing': 8, 'hold': 2}), E('c15_names', {'lengths': 4, 'other lengths': 4})],
  'one creation in an empty registry or after another creation, all 11x11 choices of two assets (two tokens in two spellings, two coins, a coin named like a token, an unregistered coin, addresses that are no tokens); decimals 0..9, 10..18, 10..99 and 100..255 over the assets; requirements with every minimum in 128 bits and 0..2 members; and two creations of coins with arbitrary names of 3 or 4 letters (d..z)')
P('C16', [E('c16', {'pair': 12, 'other': 7}), E('c16_names', {'lengths': 4, 'other lengths': 4})],
  'one or two registered pairs, looked up by all 7x7 choices of two assets (tokens in two spellings, coins, a coin named like a token); decimals 0..9, 10..18, 10..99 and 100..255 over the assets; every minimum in 128 bits; and pairs of coins with arbitrary names of 3 or 4 letters (d..z)')
P('C17', [E('c17'), E('c17_many', {'start': 8}), E('c17_all', {'start': 34}, tier='thorough')],
  'registries of 4 and 33 pairs with keys that are prefixes of each other; every limit in 32 bits; page starts 0..4 of 4, and 0 1 2 3 9 21 32 33 of 33 (thorough: all 34), given in either order')
P('C29', [E('c29_factory', {'pairs': 3}), E('c29_pair', {'kinds': 4}), E('c29_router')],
  'a factory with a changed owner and codes, two registered coins and no, one or two pairs; earlier versions recorded as equal or older; a pair of each asset kind with every reserve, LP supply, minimum in 128 bits and 0..2 members; a router; decimals 0..255 (factory) and 10..18 (pair)')

# ---------------------------------------------------------------- router
ASSETS = 'five assets: two tokens, a coin, a coin named like the first token, a third token'
P('C19', [E('c19_one'), E('c19_two', {'offer': 5}), E('c19_three', {'offer': 4, 'ask': 4}), E('c19_options', {'route': 15}), E('c19_three_all', {'offer': 5, 'ask': 5}, tier='thorough')],
  'every route of one and two hops over ' + ASSETS + ', every route of three hops over four of them (thorough: all five), and fifteen routes of up to thirteen hops with every caller, recipient and minimum; held balances and minimums in 128 bits')
P('C20', [E('c20', {'offer': 5})],
  'one hop between any two of ' + ASSETS + ', four registered pairs; seven senders, four recipients; every balance of the router in 128 bits')
P('C21', [E('c21_messages', {'route': 15}), E('c21_assert')],
  'fifteen routes of up to thirteen hops with every caller, recipient and minimum; the closing check alone for every balance, earlier balance and minimum in 128 bits, five assets, two senders and receivers')
P('C22', [E('c22_short'), E('c22_two', {'offer': 5}), E('c22_three', {'offer': 4, 'ask': 4}), E('c22_long')],
  'quotes in both directions over every route of up to two hops over ' + ASSETS + ' and every route of three hops over four of them, and six routes of four to seven hops; amounts and the pairs\' answers arbitrary in 128 bits, or failing')
# ---------------------------------------------------------------- tokens and new pairs
P('C23', [E('c23_name'), E('c23_symbol'), E('c23_symbols'), E('c23_decimals'), E('c23_supply')],
  'names of 0 to 54 bytes (one to four bytes a letter), symbols of 0 to 14 letters with any byte at any place, every number of decimals, nine lists of initial holders with every balance and cap in 128 bits')
P('C24', [E('c24_held', {'op': 4}), E('c24_allowed', {'op': 3, 'sender': 3}), E('c24_allow')],
  'one operation (the inductive step) of each kind by any of three accounts between any of them; balances, amounts, allowances and caps in 128 bits; allowances expired or not')
P('C28', [E('c28_new', {'assets': 6}), E('c28_pool', {'kinds': 4})],
  'new pairs of six asset combinations with symbolic decimals, minimums in 128 bits and 0..2 whitelist members; LP addresses of several lengths; reported reserves and LP supply in 128 bits')
# ---------------------------------------------------------------- wide numbers
P('C25', [E('c25_linear'), E('c25_product'), E('c25_convert')],
  'one operation; every pair of 256-bit operands (128-bit for the conversions that take them)')
P('C26', [E('c26_uint'), E('c26_decimal', {'magnitude': 8}), E('c26_narrow', {'magnitude': 4}), E('c26_short'), E('c26_short_int'), E('c26_long', {'whole digits': 11}), E('c26_long_int'), E('c26_message'), E('c26_short_six', tier='thorough')],
  'every 256-bit value written and read; every printable text of up to five characters (thorough: six); texts of up to 79 whole and 36 fractional digits, all digits arbitrary; decimals in messages to 2^90')
# ---------------------------------------------------------------- assets, and everything together
P('C27', [E('c27_equal'), E('c27_raw'), E('c27_self'), E('c27_stored'), E('c27_spelled'), E('c27_paid'), E('c27_held'), E('c27_pair'), E('c27_namesake', {'op': 7}), E('c27_foreign')],
  'comparison, storing, messages and balances of every asset with names of printable characters at any place (lengths up to eight) or token addresses in either letter case; every operation of a pair offered an asset of the other kind with the same name, every amount and reserve in 128 bits')
P('C31', [E('c31_route', {'flip': 2}), E('c31_route_two', {'flip': 2, 'last': 2, 'router holds': 2}), E('c31_coin_route'), E('c31_pool', {'kinds': 4}), E('c31_migrate', {'kinds': 4}), E('c31_told'), E('c31_limits')],
  'router, factory, pairs and tokens executed together from the text of each message: routes of one and two hops, the creation of a pair with one deposit by its maker and a later deposit or withdrawal, upgrades by four senders, notifications with every payload of up to five bytes; every amount, reserve, balance and limit in 128 bits (120 for the pool)')
