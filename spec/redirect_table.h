/* command, in-between replies, closing replies, errors, recorded only without a third argument */
	{ "WHOIS", { 311, 319, 301, 317, 319, 307, 312, 313, 338, 275, 330, 320, 308, 309, 326, 401, 0 }, { 318, 263, 0 }, { 402, 431, 0 }, 0 },
	{ "WHO", { 352, 354, 0 }, { 315, 263, 0 }, { 402, 0 }, 0 },
	{ "NAMES", { 353, 0 }, { 366, 263, 0 }, { 416, 402, 0 }, 0 },
	{ "LIST", { 322, 321, 0 }, { 323, 263, 0 }, { 416, 402, 0 }, 0 },
	{ "TOPIC", { 0 }, { 331, 332, 263, 0 }, { 442, 461, 482, 477, 0 }, 1 },
	{ "WHOWAS", { 314, 312, 330, 406, 0 }, { 369, 263, 0 }, { 431, 0 }, 0 },
	{ "STATS", { 213, 215, 217, 249, 211, 212, 244, 214, 216, 241, 242, 243, 250, 0 }, { 263, 219, 0 }, { 402, 0 }, 0 },
	{ "VERSION", { 0 }, { 351, 263, 0 }, { 402, 0 }, 0 },
	{ "LINKS", { 364, 0 }, { 365, 263, 0 }, { 402, 0 }, 0 },
	{ "TIME", { 0 }, { 391, 263, 0 }, { 402, 0 }, 0 },
	{ "TRACE", { 200, 201, 203, 205, 209, 202, 204, 206, 208, 0 }, { 263, 0 }, { 402, 0 }, 0 },
	{ "SUMMON", { 0 }, { 342, 263, 0 }, { 411, 424, 444, 402, 0 }, 0 },
	{ "USERS", { 392, 393, 395, 0 }, { 394, 263, 0 }, { 402, 424, 446, 0 }, 0 },
	{ "USERHOST", { 0 }, { 302, 263, 0 }, { 461, 0 }, 0 },
	{ "ISON", { 0 }, { 303, 263, 0 }, { 461, 0 }, 0 },
	{ "JOIN", { 0 }, { 263, 0 }, { 461, 474, 473, 475, 471, 476, 470, 403, 479, 405, 0 }, 0 },
	{ "PART", { 0 }, { 263, 0 }, { 461, 403, 442, 0 }, 0 },
	{ "NICK", { 0 }, { 263, 0 }, { 431, 432, 433, 437, 484, 436, 438, 0 }, 0 },
	{ "PASS", { 0 }, { 0 }, { 461, 462, 0 }, 0 },
	{ "USER", { 0 }, { 263, 0 }, { 461, 462, 0 }, 0 },
	{ "QUIT", { 0 }, { 263, 0 }, { 0 }, 0 },
	{ "OPER", { 0 }, { 381, 263, 0 }, { 461, 491, 464, 0 }, 0 },
	{ "MODE", { 367, 348, 346, 0 }, { 221, 324, 368, 349, 347, 325, 263, 0 }, { 461, 501, 502, 441, 467, 482, 472, 477, 403, 479, 0 }, 0 },
	{ "SERVICE", { 0 }, { 383, 2, 4, 263, 0 }, { 462, 461, 432, 0 }, 0 },
	{ "SQUIT", { 0 }, { 263, 0 }, { 481, 461, 402, 0 }, 0 },
	{ "INVITE", { 0 }, { 341, 301, 263, 0 }, { 461, 442, 401, 482, 443, 0 }, 0 },
	{ "KICK", { 0 }, { 263, 0 }, { 461, 476, 441, 403, 482, 442, 0 }, 0 },
	{ "PRIVMSG", { 0 }, { 301, 263, 0 }, { 411, 412, 404, 413, 407, 414, 401, 403, 505, 0 }, 0 },
	{ "NICKSERV", { 0 }, { 263, 0 }, { 412, 0 }, 0 },
	{ "CHANSERV", { 0 }, { 263, 0 }, { 412, 0 }, 0 },
	{ "MOTD", { 375, 372, 0 }, { 376, 263, 0 }, { 422, 0 }, 0 },
	{ "LUSERS", { 251, 252, 253, 254, 255, 250, 0 }, { 263, 0 }, { 402, 0 }, 0 },
	{ "CONNECT", { 0 }, { 263, 0 }, { 402, 461, 481, 0 }, 0 },
	{ "ADMIN", { 256, 258, 257, 259, 0 }, { 263, 0 }, { 402, 0 }, 0 },
	{ "INFO", { 371, 0 }, { 263, 374, 0 }, { 402, 0 }, 0 },
	{ "SERVLIST", { 234, 0 }, { 263, 235, 0 }, { 0 }, 0 },
	{ "SQUERY", { 0 }, { 301, 263, 0 }, { 411, 412, 404, 413, 407, 414, 401, 0 }, 0 },
	{ "KILL", { 0 }, { 263, 0 }, { 481, 461, 401, 483, 0 }, 0 },
	{ "AWAY", { 0 }, { 305, 306, 263, 0 }, { 0 }, 0 },
	{ "REHASH", { 0 }, { 382, 263, 0 }, { 481, 0 }, 0 },
	{ "DIE", { 0 }, { 263, 0 }, { 481, 0 }, 0 },
	{ "RESTART", { 0 }, { 263, 0 }, { 481, 0 }, 0 },
	{ "PING", { 0 }, { 263, 0 }, { 409, 0 }, 0 },
	{ "WALLOPS", { 0 }, { 263, 0 }, { 461, 0 }, 0 },
	{ "PONG", { 0 }, { 263, 0 }, { 409, 402, 0 }, 0 },
	{ "NOTICE", { 0 }, { 263, 0 }, { 0 }, 0 },
	{ "AUTH", { 0 }, { 263, 0 }, { 461, 909, 462, 910, 911, 900, 912, 0 }, 0 },
	{ "CAPAB", { 0 }, { 290, 0 }, { 461, 0 }, 0 },
	{ NULL, { 0 }, { 263, 0 }, { 421, 0 }, 0 },
