"""pairs of different keys with equal 32-bit string hashes (pinned hash function)"""
PAIRS = [('k0ce9cf', 'k18cc74'), ('k075ede', 'k1becb3'), ('k19bf56', 'k1bf118'), ('k04e865', 'k12b980'), ('k0574c3', 'k1332e5'), ('k18d66b', 'k1b7ec7'), ('k04556c', 'k12d6af'), ('k127efe', 'k1dd693'), ('k16b7f0', 'k199eba'), ('k0a8b1c', 'k1a192b'), ('k0ef153', 'k1acea5'), ('k045076', 'k062c7f'), ('k0fa138', 'k170fd8'), ('k12efcc', 'k1d10f7'), ('k036733', 'k0c07da'), ('k0915b0', 'k17711a'), ('k096918', 'k0d38f7'), ('k049ceb', 'k0f56c1'), ('k0516dc', 'k116cb4'), ('k158dd8', 'k1babda'), ('k14c158', 'k1c64c6'), ('k0f0bad', 'k132ccf'), ('k06d365', 'k18b1a8'), ('k018a2b', 'k07533e'), ('k0b2903', 'k10468b'), ('k120627', 'k12e5a2'), ('k018a4f', 'k0a1402'), ('k103475', 'k131053'), ('k03ae21', 'k0fe428'), ('k044ef2', 'k1c2413'), ('k002e7d', 'k12d1b9'), ('k017b9f', 'k1ba1e1'), ('k0b0bbf', 'k1466f3'), ('k10c166', 'k10fbeb'), ('k107bce', 'k1c59d4'), ('k08da30', 'k0e2bc7'), ('k0ebb7e', 'k16b5c5'), ('k05d0f9', 'k1e1e9c'), ('k0ba8cd', 'k0fa047'), ('k02798a', 'k091c29')]
