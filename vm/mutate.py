"""Damage a source: what a slip of the finger, a bad paste or a stranger's file does to it."""
TOK = ["::", ":", "{", "}", "*", "/", "$", "$$", "`", "```", "#", "##", "###", "####", "%", "\\", "\n", "\n\n", ":rsm:",
       ":ref:", ":cite:", ":item:", ":step:", ":p:", ":caption:", ":figure:", ":table:", ":tr:", ":td:", ":thead:",
       ":tbody:", ":label:", ":nonum:", ":title:", ":types:", ":author:", ":abstract:", ":proof:", ":theorem:", ":toc:",
       ":appendix:", ":bibliography: ::", ":bibtex:", ":section:", ":subsection:", ":prev:", ":prev2:", ":previous:3::",
       ":math:", ":code:", ":codeblock:", ":mathblock:", ":span:", ":claim:", ":let:", ":qed:", ":note:", ":itemize:",
       ":unknown:", ":path: x", "@book{a,", "\r", "\r\n", "\t", "é", "😀", "<b>", "&", '"', "'", ":claimblock:",
       ":sketch:", ":enumerate:", ":algorithm:", ":url:", ":keywords: {a}", ":scale: 2", ":scale: x", ":lang: x",
       ":reftext: y{z}", ":reftext: {number}", ":isclaim:", ":strong:", " ", "\x0b", " ", ":date: x", ":author::",
       ":subproof:", ":draft:", "</div>", "</p>", "<!--", ":label: a\"b<c", ":types: {\"x\",<y>}", "% c", ":previous:0::",
       ":previous:x::", ":previous:99::", ":cite:,::", ":cite:a,,b::", ":ref:a,b,c::", ":url:x,y,z::", "{:label: q}",
       "{:nonum:}", "{:types: {a,b}}", "{", "{}", "{:}", ":definition:", ":remark: {:title: x}", ":nonum: x"]


def mutate(s, r, hits=(1, 1, 1, 2, 3, 6)):
    for _ in range(r.choice(hits)):
        n = len(s)
        i = r.randint(0, n)
        j = min(n, i + r.choice([1, 1, 2, 5, 20, 80]))
        m = r.randrange(8)
        if m == 0:
            s = s[:i] + s[j:]
        elif m == 1:
            s = s[:i] + r.choice(TOK) + s[i:]
        elif m == 2:
            s = s[:i] + s[i:j] + s[i:j] + s[j:]
        elif m == 3:
            ls = s.split("\n")
            del ls[r.randrange(len(ls))]
            s = "\n".join(ls)
        elif m == 4:
            ls = s.split("\n")
            a, b = r.randrange(len(ls)), r.randrange(len(ls))
            ls[a], ls[b] = ls[b], ls[a]
            s = "\n".join(ls)
        elif m == 5:
            s = s[:i] + r.choice(TOK) + s[j:]
        elif m == 6:
            ls = s.split("\n")
            ls.insert(r.randrange(len(ls) + 1), r.choice(TOK))
            s = "\n".join(ls)
        elif r.random() < .3:
            s = s[:i]
    return s


def soup(r):
    return ":rsm:\n\n" * r.randint(0, 1) + "".join(r.choice(TOK + ["word ", "word\n\n"] * 8) for _ in range(r.randint(1, 60)))
