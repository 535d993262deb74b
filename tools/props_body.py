M = lambda *xs: [dict(name=n, where=w) for n, w in xs]
def P_(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=M(*mech)))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    out.append(d)

POOL = ("pool balances", "the pair contract's own balances of its two assets", P)
LP = ("LP supply", "total supply of the pair's liquidity token", P)
INFO = ("pair info", "assets, decimals, liquidity token and first-deposit requirements of a pair", ST)

P_("C01", "A swap never shrinks the product of a pair's reserves",
   "For every accepted swap, the product of the pair's two reserves after settlement (offer added, payout removed) is at least their product before it. The payout is strictly smaller than the reserve it is taken from unless it is zero.",
   ["inputs", "histories"], "all reserve pairs and offer amounts, in either direction; any history of swaps is covered one step at a time",
   "Unit tests swap a handful of round amounts; rounding errors appear only for particular magnitudes of reserves and offer.",
   [P, B], [("swap pricing in 256-bit fixed point, rounded in the pool's favour", P)], [POOL], ["response messages of the swap"])
P_("C02", "A swap pays the constant-product amount minus exactly 0.3% commission",
   "With offer reserve x (before the deposit), ask reserve y and offer o, an accepted swap transfers g - c where g = floor(o*y/(x+o)) and c is 0.3% of g rounded down. The reported return, commission and offer amounts equal those figures, and the reported spread is o multiplied by the reserve ratio y/x (kept to 18 digits), rounded down, minus g, or zero when that is negative.",
   ["inputs"], "all reserves and offers up to 128 bits for which the swap is accepted, both directions",
   "Tests compare a few literals; they cannot show the formula is exact for every reserve/offer magnitude.",
   [P, B], [("swap pricing", P), ("fixed-point arithmetic", B)], [POOL], ["transfer message", "response attributes"])
P_("C03", "Max-spread and belief-price limits protect every swap",
   "Whenever a swap with a maximum spread s is accepted, the amount paid respects it: with a belief price p the payout, in decimal-adjusted units, is at least (offer/p rounded down) * (1 - s) up to the 18-digit rounding of the ratio; without one, spread/(payout + spread) at 18 digits does not exceed s. A swap whose payout meets its limit is not refused for spread.",
   ["inputs", "configurations"], "all reserves, offers, belief prices, spreads, and asset decimals 0..18 on both sides",
   "Tests cover a couple of prices with equal and once-different decimals; off-by-one-decimal or swapped-side errors need particular combinations.",
   [P, B], [("spread assertion after decimal normalisation", P)], [INFO, POOL], ["swap accepted or refused"])
P_("C04", "Only a pair's own token contracts can trigger a swap, and it pays once",
   "A swap is accepted only when the notifying contract is one of that pair's own asset tokens, and it is then priced as an offer of exactly that token in the notified amount. An accepted swap emits at most one message: a transfer of the other asset, in the computed amount, to the named recipient or else to the original token sender; it moves nothing else and changes no stored state.",
   ["inputs", "configurations"], "all notifying contracts, senders, recipients, amounts, and pairs made of two tokens or a token and a native coin in either order",
   "Tests use one fixed pair and one outsider; the address-equality cases (LP token, the pair itself, either side) are not enumerated.",
   [P, A], [("caller check against the stored assets", P), ("message construction", A)], [INFO], ["response messages"])
P_("C05", "Later deposits mint exactly the smaller pro-rata share",
   "When LP tokens already exist, a deposit (d0, d1) into reserves (r0, r1) with supply S mints exactly min(floor(d0*S/r0), floor(d1*S/r1)) LP tokens, is refused if that is zero, and mints once, to the named receiver or else the depositor. For each token asset exactly the declared amount is pulled from the depositor into the pair, matched by which asset it is and not by the order listed.",
   ["inputs", "configurations"], "all deposits, reserves, supplies up to 128 bits; all kinds of asset pairs; both listing orders; receiver given or not",
   "Tests try one proportional deposit; over-minting needs unbalanced deposits or particular roundings.",
   [P], [("share computation", P), ("deposit matching by asset", P)], [POOL, LP], ["response messages"])
P_("C06", "The first deposit obeys the pair's whitelist and minimums and sets the share",
   "While no LP tokens exist, a deposit is accepted only from an address on the pair's whitelist and with both amounts at least the minimum stated for that asset. It then mints exactly the integer square root of the product of the two deposits, never zero, and is not refused or aborted for any amounts whose product exceeds 128 bits.",
   ["inputs", "configurations"], "all deposit amounts up to 128 bits, minimums, whitelists of 0..2 members, depositors",
   "Tests use small deposits; minimum swapped between assets or overflow appears only for asymmetric or large values.",
   [P], [("first-deposit requirements and square root", P)], [INFO, LP], ["mint message"])
P_("C07", "Slippage tolerance bounds how far a deposit is from the pool price",
   "With slippage tolerance t, a deposit into a pool with reserves is accepted only if both (d0/d1)*(1-t) <= r0/r1 and (d1/d0)*(1-t) <= r1/r0 at 18-digit precision; a tolerance above 1 is refused. A deposit satisfying both bounds, or with no tolerance given, is never refused for slippage.",
   ["inputs"], "all deposits, reserves and tolerances",
   "Tests check a few ratios; inverted-direction errors show up only for particular imbalances.",
   [P], [("slippage assertion", P)], [POOL], ["deposit accepted or refused"])
P_("C08", "Declared native deposits equal the coins attached, and are not counted twice",
   "A deposit is accepted only if each native asset's declared amount equals the coins of that denomination attached to the call (zero when none is). Reserves used for pricing the deposit exclude exactly the coins just deposited.",
   ["inputs", "configurations"], "all declared amounts, attached funds of 0..2 coins in any order, pairs with a native asset on either side",
   "Tests mismatch one amount; they do not cover every combination of denominations, order and zero amounts.",
   [A, P], [("attached-funds check", A), ("reserve adjustment for native deposits", P)], [POOL], ["deposit accepted or refused", "mint message"])
P_("C09", "Withdrawing pays the pro-rata share of both reserves and burns exactly that LP",
   "A withdrawal of a out of supply S pays from each reserve r an amount that never exceeds r*a/S and falls short of it by less than 1 + r/10^18, to the holder who sent the LP tokens, and burns exactly a. It is accepted only when notified by the pair's own LP token, and it emits nothing besides the two payouts and the burn.",
   ["inputs", "configurations"], "all reserves, supplies, withdrawn amounts (a <= S), notifying contracts, token and native assets on either side",
   "Tests withdraw one amount from one pool; rounding and mixed-up sides need asymmetric values.",
   [P, A], [("share ratio and payouts", P)], [POOL, LP], ["response messages"])
P_("C10", "Depositing and withdrawing back, or swapping there and back, gives no profit",
   "A user who deposits into a pool whose LP tokens are outstanding, or into an empty pool, and immediately withdraws the LP tokens just minted never receives more of either asset than deposited. A user who swaps and immediately swaps the proceeds back never ends with more of the asset started with.",
   ["inputs", "histories"], "all reserves, supplies and amounts up to 128 bits for the two-step histories",
   "No test composes the operations and compares totals for arbitrary amounts.",
   [P], [("rounding in the pool's favour in every operation", P)], [POOL, LP], ["payout messages of the second step"])
P_("C11", "The reserves backing one LP token never shrink",
   "After any accepted swap, later deposit or withdrawal, the product of the reserves divided by the square of the LP supply is at least what it was before the operation (while LP tokens remain). Hence no sequence of operations by anyone can dilute the remaining liquidity providers.",
   ["inputs", "histories"], "an arbitrary state with reserves and supply, then any one operation with arbitrary arguments: an inductive step covering histories of any length",
   "Tests run short fixed histories and never compare reserves with supply.",
   [P], [("pro-rata minting, pro-rata payout, constant product", P)], [POOL, LP])
P_("C12", "A simulated swap quotes exactly what the executed swap pays",
   "For the same reserves and offer, the simulation query returns the same return, spread and commission amounts as the swap reports and pays, for both directions. The query succeeds whenever the swap without limits does.",
   ["inputs", "configurations"], "all reserves and offers, both directions and both kinds of pair",
   "Tests compare one set of numbers in one direction.",
   [P], [("query and execution share pricing but derive reserves separately", P)], [POOL], ["query response", "response attributes"])
P_("C13", "The reverse quote buys the asked amount, and is tight",
   "For an asked amount a that the pool can pay, offering one unit more than the reverse-simulated offer yields at least a minus the commission-rounding slack (two units plus a/10^15), and offering the quoted amount yields at most a plus the same slack. The reverse quote never undercuts: its offer plus one multiplied into the pool keeps the constant product.",
   ["inputs"], "all reserves up to 128 bits and asked amounts below the payable limit, both directions",
   "Tests check single literals with hand-picked tolerances.",
   [P], [("inverse pricing", P)], [POOL], ["query response"])
P_("C14", "Factory settings change only by the owner, and only the fields asked for",
   "Updating the configuration, registering native decimals and migrating a pair are refused for every sender but the current owner, leaving state untouched. An accepted update changes exactly the fields given (a new owner must be a valid address) and the new owner, not the old, then has the rights; a migration targets the given contract with the given code or else the configured pair code.",
   ["inputs", "histories"], "all senders, owners, optional field combinations and two-step histories",
   "Tests exercise a few field combinations and one unauthorised sender.",
   [F, FS], [("owner check and field-wise update", F)], [("config", "owner and code ids", FS)], ["stored config", "messages"])
P_("C15", "A pair is created only for two different, known assets without a pair",
   "Creating a pair is refused when both assets are the same, however the address is spelled, when either asset's decimals cannot be determined, or when a pair for these two assets exists in any order. Otherwise exactly one pair is instantiated with the assets in the given order, each with its own decimals, the configured codes, the factory as admin, and the given requirements unchanged.",
   ["inputs", "histories", "configurations"], "all asset kinds, names and spellings, decimals, existing registries, requirements",
   "Tests use two fixed assets in lower case.",
   [F, FS, A], [("creation preconditions", F)], [("registry", "asset set to pair", FS)], ["instantiate message", "errors"])
P_("C16", "The registry returns, for any order of two assets, exactly that pair",
   "After a pair is created, looking up its two assets in either order (and any spelling of token addresses) returns that pair: its contract address, its LP token, its assets with their decimals in creation order and its requirements. Looking up any other set of two assets never returns it, and creating another pair never changes it.",
   ["inputs", "histories"], "all pairs of assets (tokens and native coins, symbolic names up to a few characters), one or two registered pairs",
   "Tests look up one pair; key ambiguity needs particular combinations of names.",
   [F, FS, A], [("order-independent registry key", FS), ("registration on the pair's reply", F)], [("registry", "asset set to pair", FS)], ["pair query"])
P_("C17", "Paging through the registry lists every pair once, in order",
   "Listing pairs page by page, each page starting after the last pair of the previous one, returns every registered pair exactly once in a fixed order. A page holds at most the requested number, at most 30, and 10 when none is requested, and is shorter only at the end.",
   ["inputs", "histories", "configurations"], "all registries up to a stated size with arbitrary keys, all limits, both listings of the boundary pair's assets",
   "Tests page over two fixed pairs.",
   [F, FS], [("exclusive range start after the last key", FS)], [("registry", "asset set to pair", FS)], ["pairs query"])
P_("C18", "Native decimals are registered only by the owner for coins the factory holds",
   "Registering decimals for a native coin succeeds only for the owner and only while the factory holds a positive balance of that coin; afterwards the query returns the latest registered value for that coin and other coins' values are unchanged. An unregistered coin has no decimals and cannot be paired.",
   ["inputs", "histories"], "all denominations, decimals 0..255, balances, senders, two-step histories",
   "Tests register one coin.",
   [F, FS], [("owner and balance check", F)], [("native decimals", "denomination to decimals", FS)], ["decimals query"])
P_("C19", "A router route runs its hops in order and delivers one output to one recipient",
   "An accepted route turns into one internal hop per requested operation, in order; only the last hop names a recipient: the requested one, or else the user who started the route. Empty routes and routes leaving any intermediate output unconsumed are refused, and every chained route is accepted.",
   ["inputs"], "all routes of 1..3 hops over symbolic asset names, via coins or via a token transfer, with or without recipient and minimum",
   "Tests run two or three fixed routes.",
   [R], [("route check and message list", R)], [], ["response messages"])
P_("C20", "Router hops are internal and swap the whole balance via the registered pair",
   "A single hop is refused unless the router itself sends it. An accepted hop emits exactly one message that offers the router's entire balance of the offered asset to the pair the factory registers for these two assets, with the hop's recipient, no other funds, and no spread limit.",
   ["inputs", "configurations"], "all senders, balances, assets of either kind, recipients",
   "Tests use fixed balances and one outsider.",
   [RO], [("self-call check, pair lookup, message construction", RO)], [("router config", "factory address", RS)], ["response messages"])
P_("C21", "A route with a minimum fails unless the recipient gains at least that much",
   "When a minimum is given, the route ends with a check of the final asset for the actual recipient against the balance recorded before any hop, and the check succeeds exactly when the balance has grown by at least the minimum. Without a minimum no such check is added.",
   ["inputs", "histories"], "all balances before and after, minimums, recipients, asset kinds, routes of 1..3 hops",
   "Tests check single numbers on either side.",
   [R], [("recorded previous balance and closing assertion", R)], [], ["last message", "assertion outcome"])
P_("C22", "A router quote is the exact composition of the pairs' quotes along the route",
   "The forward route quote feeds the offer through each hop's pair simulation in order, and the reverse quote feeds the asked amount through each hop's reverse simulation in reverse order, each against the pair the factory registers for that hop. An empty route or a failing hop yields an error, never a number.",
   ["inputs", "configurations"], "routes of 1..3 hops with arbitrary pair quotes",
   "Tests use constant mock quotes, for which order and direction errors are invisible.",
   [R, Q], [("fold over the hops", R)], [("router config", "factory address", RS)], ["query response"])
P_("C23", "A token starts only with valid metadata and within its cap",
   "Token creation succeeds exactly when the name has 3 to 50 bytes, the symbol 3 to 12 characters from letters and hyphen, decimals are at most 18, the balances' addresses and the minter are valid and without duplicates, and the balances' sum fits the cap if there is one. The created token reports that metadata, exactly those balances, their sum as supply, and that minter and cap.",
   ["inputs", "configurations"], "all names and symbols up to the length limits plus one, decimals 0..255, up to 2 initial balances, caps",
   "Tests try one invalid value per field.",
   [T, "packages/haloswap/src/token.rs"], [("metadata validation and cap check", T)], [("token info", "supply, minter, cap", T)], ["queries after instantiate"])
P_("C24", "Token supply equals the sum of balances; only the minter mints, within cap",
   "After any accepted token operation the total supply equals the sum of all balances, and supply changes only by minting (by the minter, up to the cap) and burning (by the holder or within an allowance). A transfer or send moves exactly the stated amount between two accounts and leaves every other balance alone; spending for someone else needs and consumes allowance.",
   ["inputs", "histories"], "an arbitrary three-account state and any one operation with arbitrary arguments, including coinciding accounts",
   "The contract wraps a library; its own tests only cover instantiation.",
   [T], [("delegation to the cw20 base implementation", T)], [("balances, allowances, supply", "token ledger", T)], ["token queries"])
P_("C25", "Wide-number arithmetic is exact, rounds down, and aborts instead of wrapping",
   "Every addition, subtraction, multiplication, division, ratio and conversion of the 256-bit integer and 18-digit decimal types returns the mathematically exact result rounded down, or aborts when an operand is invalid or a 256-bit (128-bit for narrowing) value would overflow. It never returns a wrapped or otherwise wrong number.",
   ["inputs"], "all 256-bit operands of every public operation",
   "Tests use small literals; carries and narrowing bugs need wide values.",
   [B], [("checked 256-bit arithmetic", B)], [], ["returned values"])
P_("C26", "Wide numbers survive being written as text and read back",
   "Formatting any 18-digit decimal or 256-bit integer and parsing the text yields the same number, the text being canonical (no superfluous zeros). Parsing a decimal text (where missing digits before or after the dot count as none) gives exactly the number it denotes or an error, in particular for more than 18 fractional digits or more than one dot.",
   ["inputs"], "all 256-bit values by digit count within stated bounds; all texts of the stated lengths",
   "Tests format about a dozen literals.",
   [B], [("text conversion", B)], [], ["formatted and parsed values"])
P_("C27", "Asset identity is respected everywhere assets are compared or converted",
   "Two assets are equal exactly when they are of the same kind and carry the same name; a native coin never equals a token of the same name. Converting an asset to its stored form and back preserves kind, amount and identity, and paying an asset out produces a bank send for coins and a token transfer for tokens with exactly that amount and recipient.",
   ["inputs"], "all asset pairs with symbolic names, kinds and amounts",
   "Tests compare a couple of literals.",
   [A], [("comparison and conversion", A)], [], ["returned values", "messages"])
P_("C28", "A new pair stores what it was given and adopts exactly its own LP token",
   "Instantiating a pair stores its own address, the given assets and decimals in order and the requirements, and requests exactly one LP token with 6 decimals, no initial balances, no cap and the pair as minter. When the token is created the pair adopts exactly that token's address, and its queries report all of this, the current balances and the LP supply.",
   ["inputs", "configurations"], "all assets, decimals, requirements, code ids, token addresses and balances",
   "Tests use one configuration.",
   [P, ST, A], [("instantiation and reply", P)], [INFO], ["instantiate message", "pair and pool queries"])
P_("C29", "Upgrading a contract keeps its data",
   "Migrating the pair, factory or router changes nothing but the recorded contract version: every query that answered before answers the same afterwards. No messages are sent.",
   ["inputs", "histories"], "arbitrary stored states of each contract",
   "Tests do not compare state across migration.",
   [P, F, R], [("migration entry points", P)], [], ["queries before and after migration"])
P_("C30", "Swaps, deposits and withdrawals within realistic magnitudes are never blocked",
   "With nonzero reserves up to 10^30 units each, a swap of any positive amount up to 10^30 without limits (worth up to 10^38 at the pool's price), a withdrawal of any held LP amount worth a unit of each asset, and a later deposit worth at least one LP token (and at most 2^127) on either side are carried out and not aborted. Equally, quotes for such swaps are always answered.",
   ["inputs"], "all reserves and amounts from 1 to 10^30, supplies up to 10^30",
   "Tests use comfortable magnitudes; aborts happen only for lopsided reserves.",
   [P, B], [("256-bit intermediate arithmetic", B)], [POOL, LP], ["operation accepted"])
P_("C31", "Every message one contract sends another is understood by its receiver",
   "Each message the router, factory or pair emits for another contract of the system (hop, swap, token transfer, mint, burn, pair and LP token creation, migration, queries) is decoded by that receiver as the intended request with exactly the intended arguments. Executed end to end, assets are only moved between accounts, never created or lost.",
   ["inputs", "programs", "configurations"], "all arguments of each emitted message, both kinds of asset",
   "Each contract's tests use mocks for the others, so a mismatch in the wire format passes.",
   [P, F, RO, "packages/haloswap/src/pair.rs", "packages/haloswap/src/router.rs", "packages/haloswap/src/factory.rs", "packages/haloswap/src/token.rs"], [("shared message types", "packages/haloswap/src")], [], ["receiver's entry point"])
