package gen

import "strings"

// namesakes has groups of words which a hash does not tell apart, of a line for
// each of the hashes that are used now and then in place of texts.
var namesakes = [][]string{
	{"j4ecaj5 s2easy3", "heqwphe amdm2ot", "jp2db9w a0b4900", "1e73298 xiztwgj", "1d0avif hjvxmo9", "ju2jtbe 9h1ofpm", "us4gpz4 6yn6kif", "5q34zen cxu3r5x", "i72pp7r oa2kc0i", "hoq52xv t0chnr4", "f9c3hlh 98gsunk", "553apzn 7xhzbej", "uobqpx7 sko1j4r", "l253wjg g6t5y8w"},                                                                                                                                                                                                                                 // FNV-1
	{"30zgezd 7dhluz3", "qfcofhw 8nrrgc4", "ek8hovt il9nslx", "yarsykl 47p1u6x", "mae62i0 cdwz0wo", "6i6hvcp nqeva25", "uvfh85x tnojxw4", "aqmscbk 4vmwscx", "95iszm6 z6n0qw7", "b969gjp 4td2pc2", "7gknctq z815cdn", "1piwx1j 492gva5", "7yxdsr9 gsrj9ze", "53v6dnw 81aqplx"},                                                                                                                                                                                                                                 // FNV-1a
	{"iv3jhke ueo3nes", "7pdeju3 rfqrta4", "q7gjn2q jam71um", "9738yk9 3mr68su", "lo9jyhq 48o095d", "cknjrju s84ggds", "s8z3q1q 424knoo", "d7lu1bf 67ukc1m", "s5pqssu 3ztbieu", "skleyg7 oimeqjg", "6vzf4uy fvwkfxk", "jhb0q4o d91a0h4", "squdch1 jg8asj6", "pu6oki5 0ws21sq"},                                                                                                                                                                                                                                 // CRC-32
	{"taocn4y 9qmmgac", "9s4i6kq u3lwhj4", "ps4j7lr qu09cxy", "a4euy6v dk9jgdv", "poktq0k 27lv36j", "kehae5s bbjhpsu", "x239web vp99a58", "x5sgajv zurmvy4", "w4afl6o x9f2ha7", "jxxd424 qlluwd0", "ngzg4at jdw7tpa", "rg98asq 10njahc", "yjmgi4i qn4a7x6", "a47xjwy b70yfts"},                                                                                                                                                                                                                                 // CRC-32C
	{"q2j6qt1 zn425nh qp00r6p 4xel0x4", "4pl4dki 9hh4vah 1no8jci 0mfe6sk", "w8pcvr3 o5xttb7 pj7gxv7 is7htx6", "dn2hnf4 vl56zv7 7zxv3l6 en6bmd8", "pv5fb8v bsk9o0y u1hoor3 egw2s7r", "a44t0oj z4588yz c21z1ep 7q1g3gl", "4dmswrd c1ommus 1qkirsj 6bwgwll", "r1q5cnb 1aoxi7c b3nek0y 8r8xvz2", "dnttyn7 yaywh6p tlffyz9 oqsov6j", "b6xustg q6govjv g5puxqi 9ysblvj", "0mamrdc 8evt0wv g7y7qly z38ybjz", "co1r9jb t6ke4jb 2nimgh5 dat53ax", "dhzi6uu cts9umj xs9djql itr5fwn", "upbiyl3 soneqi9 osnigu3 mvldsq1"}, // Adler-32
	{"50f9n2s 3nf9n2s", "rxudnvd a16574s", "iq5jv93 iosjv93", "giwu0iq giy5niq", "0z1q155 0xooo3s", "biinwsz zq07s41", "73lp76b tp6zcy9", "t90swtn runswv0", "6p8n5k0 35uy6pj", "emtp3f1 emv23f1", "t0ybdif 53pw6ep", "10yfhch dvahytu", "oktl2a7 l45w3fq", "icu00v3 icslnv3"},                                                                                                                                                                                                                                 // h*31
	{"csj0s33 csj0s1u", "nyl3751 p7jsy51", "msc4x6j msax4xj", "69r2m88 1pya0ov", "kb57pzt kb3yr8t", "gev072d wzkw5a6", "gjx8gzq 5npkk3w", "l6jyl0g v5t3wls", "pp1ev9s 1hmh01i", "hdgmra1 f8q7xwo", "i8j08ln s7pmfh8", "wb1zzgh iwtk2e7", "gg0rdfj qf8nqb4", "ghr7rbr ghr7rd0"},                                                                                                                                                                                                                                 // h*33
	{"csj0s33 csj0s1u", "nyl3751 p7jsy51", "msc4x6j msax4xj", "69r2m88 1pya0ov", "kb57pzt kb3yr8t", "gev072d wzkw5a6", "gjx8gzq 5npkk3w", "l6jyl0g v5t3wls", "pp1ev9s 1hmh01i", "hdgmra1 f8q7xwo", "i8j08ln s7pmfh8", "wb1zzgh iwtk2e7", "gg0rdfj qf8nqb4", "ghr7rbr ghr7rd0"},                                                                                                                                                                                                                                 // 5381, h*33
	{"2eqp063 zmllqw4", "qw30isx fj6e5yb", "aksl973 rr8plhf", "dwuilvx xxk1s60", "neutyo2 f06ixk6", "wrcfb41 iuq96xw", "9gje3fy kwpkhqm", "r6ttkhb 014rgun", "8pstyoh 4yzxpht", "zaztb1d whplgwq", "evxrnmq 0il9s4n", "qmzcr6z 6m3ozgq", "hobd47u yr4ba6e", "xutwz5t cf6i2gd"},                                                                                                                                                                                                                                 // h*65599
	{"qajs1x2 0jk8cwi", "jhz02m8 3tzm0b7", "wc8br3s 4kjim85", "82f0m0o 7a3b3fp", "6id89om 2n71ok2", "eyma7v7 pu5kjk0", "062ln19 hnse9iz", "4hg6qtw bp6qhwq", "ble8ccs qk0owbv", "lz8gzve 254qxok", "xx3ajkx 2ha20nf", "bsy18d9 p306ern", "6823fvb prmnawp", "gtduo9a h7vetg6"},                                                                                                                                                                                                                                 // h*131
	{"9tuhnk6 ukeg094", "7kutdp5 5h27wcn", "ba641pd ezudf02", "sn9fph7 ix9rqhf", "3vrjkj4 08jujo2", "dvv3n9e jrlmtgg", "ti6596w t6xdsu2", "rxc3oc5 s7vqmta", "6p66j9r brr518c", "gmbi6og xce8fif", "iraukj4 bndpfs5", "9w9j2h7 9l967zq", "av9dvfx p6nzadm", "vstzp75 kxt8fak"},                                                                                                                                                                                                                                 // h*16777619
	{"97rmdj0 4mv2wpv", "joou4x2 7dtstu8", "rzeibzg ltwb4ys", "h5fnlms upomvvu", "26bk4is 4runc9j", "tydrm07 b64dz3n", "ypq150o ypovjyz", "i4zmeh6 w9xr578", "pdmd54x m4pci27", "o52u2yz di014ux", "np3peiz fncw89m", "6khphdx kww7oap", "p9rzlmr 9vlw190", "pe1rchy 1o0muo7"},                                                                                                                                                                                                                                 // one at a time
	{"v94nvyu mg08zvc hhtism5 odfcfnh", "r37zt0s 9z425gg oeb3w4e js73k36", "e18bx4i sb3nvzw m94hp7p q1s4omg", "xuroxq6 zzr8236 zsg6xzi mqirz4i", "65fx4m4 lgelqje iekz4il g3dh00o", "zn425nh qsws4py 57jau8y wrbgpd1", "o147cy8 ucgkmg3 j0vygri fgo6yd6", "a5dg3ij p0e3d6g evkjfuf xn4ycru", "tvr2q7k 1q126w4 flqqyx9 odj22zl", "o2x4dqa i7joqp3 3wrcrgj kechn38", "8kraxhn 4hcunxr 4rxnyoi 5hrlb85", "u1bhzvg ehrpnxs 1g4ba4o nuot1d8", "xpw8geg zhl9745 1p3z7qe 9pqki7x", "5p6mlar 0sk5aen 5usdnqg g3nbimf"}, // FNV-1a of 16 bits
	{"oyjub31 o1nd1pp", "lexr0jt 2rn0b6a", "nuo6dzq cywyie5", "ndlzce9 4t61qrs", "wqiyk5y p24bevd", "f8wj7jh 1y15w6o", "eyz4ass yj9y1mt", "5jwwwbd psm1qbx", "dch52um 9jm9zcx", "x5j20gd fbdao0z", "avuj9ps vydqzrt", "zcgdq8w g6su8qx", "p338dzc k253kd9", "9mjbutq dzehbu8"},                                                                                                                                                                                                                                 // low half of FNV-1a of 64 bits
	{"hkl0u9x epmzkaa", "58r0roz 4xj6xxv", "e4tq0e7 ofxv0hq", "kusrk2b fswjg0g", "a83y5fo 1hg38zp", "ni96ptd 869ttrw", "u3tpzph aizadrs", "ta85y02 nn8ng51", "77hgn2d qx01oam", "0ku1jx5 y9fq6ox", "j4pul20 sisiudv", "iav4fdk sqfp04w", "3f4syfr 0g8f9za", "sv5hicx ytx9egz"},                                                                                                                                                                                                                                 // low half of FNV-1 of 64 bits
}

// Namesakes makes texts that many a hash does not tell apart, n at most and
// two at least.
func Namesakes(r *Rng, n int) []string {
	n = max(n, 2)
	var out []string
	switch r.Intn(4) {
	case 0: // the same symbols in another order
		rs := []byte("abcdefgh")[:3+r.Intn(6)]
		seen := map[string]bool{}
		for try := 0; len(out) < n && try < 4*n+8; try++ {
			if !seen[string(rs)] {
				out = append(out, string(rs))
				seen[string(rs)] = true
			}
			Shuffle(r, rs)
		}
	case 1: // h*31 + c, h*33 + c: also with anything before and after
		m := Pick(r, []int{31, 33})
		for i := 0; i < 16 && len(out) < n; i++ {
			var t strings.Builder
			for k := 0; k < 4; k++ {
				if i>>uint(k)&1 == 0 {
					t.WriteByte('C')
					t.WriteByte('w')
				} else {
					t.WriteByte('D')
					t.WriteByte(byte('w' - m))
				}
			}
			if s := t.String(); !HasSpecial(s) && okValue(s) {
				out = append(out, s)
			}
		}
	default:
		k := Pick(r, namesakes)
		for try := 0; len(out) < n && try < n; try++ {
			out = append(out, strings.Fields(Pick(r, k))...)
		}
	}
	seen := map[string]bool{}
	var once []string
	for _, s := range out {
		if !seen[s] && len(once) < n {
			seen[s] = true
			once = append(once, s)
		}
	}
	return once
}
