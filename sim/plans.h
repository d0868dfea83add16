// property, { scenario, weight }..., runs in the quick tier, in the thorough tier
{ "C01", { { "kv", 4 }, { "engine", 1 } }, 18000, 200000 },
{ "C02", { { "kv", 5 }, { "engine", 1 } }, 16000, 200000 },
{ "C03", { { "kv", 4 }, { "engine", 1 } }, 16000, 200000 },
{ "C04", { { "kv", 4 }, { "engine", 1 }, { "persist", 1 } }, 12000, 200000 },
{ "C05", { { "persist", 1 } }, 6000, 150000 },
{ "C06", { { "persist", 1 } }, 6000, 150000 },
{ "C07", { { "persist", 1 } }, 5000, 150000 },
{ "C08", { { "persist", 1 } }, 6000, 150000 },
{ "C09", { { "kv", 2 }, { "stream", 1 } }, 10000, 200000 },
{ "C10", { { "abuse", 1 } }, 4000, 100000 },
{ "C11", { { "auth", 1 } }, 14000, 200000 },
{ "C12", { { "mem", 1 } }, 5000, 150000 },
{ "C13", { { "engine", 1 } }, 12000, 150000 },
{ "C14", { { "engine", 1 } }, 9000, 150000 },
{ "C15", { { "engine", 1 } }, 9000, 150000 },
{ "C16", { { "kv", 2 }, { "engine", 1 } }, 8000, 200000 },
{ "C17", { { "engine", 2 }, { "kv", 3 } }, 12000, 180000 },
{ "C18", { { "kv", 3 }, { "engine", 1 } }, 14000, 200000 },
{ "C19", { { "kv", 6 }, { "persist", 3 }, { "abuse", 1 }, { "mem", 1 }, { "monitor", 1 }, { "stream", 1 } }, 10000, 200000 },
{ "C20", { { "engine", 1 } }, 14000, 150000 },
{ "C21", { { "monitor", 1 } }, 4000, 150000 },
