package simrand

import "math/big"

// primePool holds pre-generated 1024-bit primes (top two bits set, as crypto/rand.Prime does).
var primePool = []string{
	"JSxvU7UW26Q4ruY9Iav1fWBqFYRM0aanGgZCWCn6406Fc4O0JbLQdu0WimBIK1ojTd7QjrKfAGL9D0r7cxjudKmkRuUkP04l5ayPm4VMcNMe4WGob3sea1J1l16j5tMTcYKgnoZCyR5ynnDdWapuKoE91EovCzWf7fWgvVS3A5WZ",
	"SGXcEdO18wgK7HDEGyNegt1vFY0S0geNChZIrmIFoHRWFR10g9pt5kDW38YSdtQxxO6LIuEAM52dsX49KzXvwk2cK62C0htTGAnKoXmNAVP6mXjEud5OmQvaWNhgDYBKPT9UqdueWjk49rpoBx8ctdIDHI2tGwCuuLrbhjSWBb4b",
	"OYadfcMzD6cia5LkZyJ7MkejE0eUdW23bKPOjocg5QroVZllHGjj7pKZqyw8xVMuKRWchtJDHJHg2KDanqFFi26RYrZnTgK1xFOAs9hyoMsRuybUdC0zBA8YnnisWsMha9rWSrVWWCQAv49nlmw7mht6R1E4hUf4Ea9hQx28buuD",
	"Ux1Z1gVBrVNVjGv6K3pLNpdlqJWhGe7pKvJMOmVhzmXkSL7zdU1d5s70NOhdhQyaztFzpLxxsIhFLJvTJ4oHxgtDdGRsnJqZZK2SLBLRYymZZMF3JKRgPcminwSCBzlXiApfSEzKkp17mUE0amZzIZht5Tq147aV7HtIjJ3NPN4r",
	"TIb3to72gMpBhk3GRApiNaNRBaLr22uKORCtnLKUEL6f7HBwqGKKU7i17eXAxHJkjmwBNn58zRhCjN2AG7ySJr6ROAjex7GukeAoHWmuxbuLfqcPt8fPkc93pb22O4CeBM4BiBC606DNno3ITsnA540a7rCLOQoKAMG0XCdcTiED",
	"OKPh9wG4bKL0IR6vmY20mknJCEuo3eY0shTkKJcsCzY0KfNNJUorUqJ0YHUgdcjUiBMtoC0SazkmqmS6PTy0CPcDo8JlpnqflkIrSvWdeBdEbcUKMgPpdwKQjy2NOiZUototCjIyOARyidpmzmwzZfmy0uoHNQA1I6JiABd7aQar",
	"QgaHRj8wVxsjRoNaGVzTpVs2MszISZaloaPPYaH8DmkEAztbapfx6lfIYxdguFokT7QZX2T7zF4aO25m1m7w0shOQEJKWOCsOouwnwlQv3FP6oTsuBFC7W6cR1En0LikEYHhE9Qa4NpgsJqOsxo0KW32KeUuUGRx1mYXhzHb5SeX",
	"PIzPB7t9nBXgZEmjVSC2oODJG5HLZNh49xEIzHZfL3FEj7IGER6072lMJtABDuTZmebFnDxF4znHCssdlAcVWnnNPMMsttOp1MJ5wTxPTHW5XcVrM5d7GtKOc5e4fNOb0O5CvEe7Bzs029FeY6xc5uhz7GhlVfNJ8cpizduj116d",
	"SvlHK7iBoKQdoNwBjytjORIsFh4b3OeIYWK8yLdgnCBLxHXP7E3v0wfMZpTNtBMKgJXgUbfHzBlwCO5tIEtlxCX8e1I8ZppHAry1Xm7QlEjcGYByfQ85eyRxFrroYbZy5UNpV7ZRDVyV4wWCvCORGWLiO5tIf0JL7cyeLexFSTlr",
	"KG98vGLIFLMwCjnayVt8U569uPT4SRhjRgmzDK6KHtdPf0Mor8pgWYY5bGWAv0Z6blnN8nTx6Ilbx3G86PVBZg0jIOPntiwx93k4VDR3aHy2uSqrlwP6SUyaUsobZvDS93WZYMHbvDRAN60E07ykXTeb3mt06tqKcpejyf9w8EEJ",
	"KiexAsBmUt8rKkkXKfUKhSW6W2B7BnZBn6xrj182RBFlBL1q0HUhibA3q7Exf6C1f5tj3r5m390m8kLt6vMQov7ONtD4aYmmKa8Wm5Nwr6uo87PcxevmOsrhcDzd1SrmRWzwQcrya6D3Qf0gpq47CnlfMOCF2jAy5FPl6EX0F8wd",
	"LQszzW6uzTVTlRgVwupEu5wlPb5kRkMLJfKb6NKWoTqKMogbWdYChOzVu1qT2PPLAO8hhH9bg3movs1IrrBODACkbCKg9nzqu94W22yjz2ggZhiEnBRlSbVH0qxefzjbhofk5eO8Bkds0OTRzcSTYz2dEcUXxr3EOD5UVEGPri2J",
	"UIVA5a8JgPen0hHrfa4fv7IGrMd5UJunzgnCYfh0Js8AbGTCPW672c2YdHnv0rwuUXkvkwB3hSxzI3vh65QIs7WmDz7Q7yJtJJoM9IMC3q7fbBO5J9vLquF6Y6zUmZ0dKKKrzunxs82ZMQwWN5c15VTYCzASdroY6I4ehkE8h1oN",
	"RtXOVfsHaFhKph0yIPzFhavThiivcl1lOd9zpXQ14ZGTACTwKFha6FgWFESTeLZdkGGj2YSfg5Dk5ydMINYmXfAZYJ9miX5ApWf4CazboaOLOMmyxc8oLFVcYYJA8uTCrj6Jgk7ahYQxhmLijuNlDPiifgANTNFwkYREJ4qfrPQJ",
	"HxAlG02lTZcMZUXi4gwSEAFfNce9cxp678jPbJty7mMs2hAVXsNUvaky9PI7LZ4J4zhV9NaVCDFFNIa8G1HLnmLyojAmBdVKHTMSRaMJbQYkyUH2askytDAiQiplTANgkrZUUqouZCXOJMcXCxwekglCWv8VMPTOFMCEuTUwdMzD",
	"UHgTzp49YjWCZ7LkGqe5fRHJYg3DXadZvYhxPM5NwijMXdoCuEMRuRNkwNJmBbYDivLuMOtacZvdXAtnmCAcDlIFgHkE7UQBOIAvWxHPxVfewCixnkwicGSeajX2vsLqm2959mjyVSp5qWIvUjFUUGjvK5xxQAh8VIIai2DSh1ax",
	"Q7ynKaXD3sWuwGeQpDdrm2eMNCk7AJOT4SLaENfviiSZC7TuJIJot5tRdQP519yJwqNMwCSDextFtAhy5QRG9GbSYWCTGh2ak27UgIdWgZQ3HZVOIOeL4KrSRiTxjZtRYIv17Quh15uvoMbDOKCGJYntre7x2jjbgsXlzt9edSk9",
	"U13EquqN4DwErM0dYYAt8L1hewx1rtimP49wrxYGTklyYlbw2fsN8iY2tvt04qyNEnxOtYQVJJwIZJaf3OBXhD8DDSfQ9FcJPggiZgDLZTjt3S4lpU26ftlgH549BxQDDyITwKl6AtBUvTtVlJKF3MkAR7gv3hs6WJvS3gblIFLF",
	"LA0VJcVotuxsYzPP6iE7s8cQsnDQ0x87uw3rSrJPkmJCn9h74JF5SYhTfvY3O9msNmXWI7B3rTyERJKnyaMfdl6ia7zD2Ekroh0BFITKvuOkvCMNlyoCO5SSQE9sZyGz1wY0A7haBFPGQP2xiAHRIOJmmfNOGZDOZ2sAfN4ndmXB",
	"U1iAPJFnUanPdVCuh0NoE1Nyd1mwV8ymvEWxvK5SIuQfoaD5CapESojzrTdOqZ1ncg6erPLqZUEUjRlcxJ4KPiYhVRhOmbiC1KW1UsFCKKjxeeT6XGBGHbCNPYCyMf7qITsz2nvKhwCUBCVnu6A6XNWxfEQsA6rTQSytXyKH4Sv9",
	"JwKals4qkBazOzvQBX7fYgzAJ9IJbycHfNo4C1MHPmKiSpkB5S22PExXR8xXbOaXGpfHFQx0Na2MGTHJUAzS8jT6zvNSNm0g8ogiQlWI8gkpFDnY4lxdFPvoaYQima3lplfbTp2YnGkhrpW9c8AFkdZcoP32GNKbfxr5MO3KGoBN",
	"NnJN0yelA5pQ9XsCjRDVr8b520HSQkKW4GrUKO6cISD1wx4AAaofquxhukOchOprBFYkX2B32V3Rp77w3x5dWhMxt3KQLTxb1iDiiFAOMrfXNLzxSfTdnz9edI3EjlzGHmmlO2TT5JDg5YuK4a2bgtSFyc8wwsS1hLp1UxwsRIwR",
	"Pw4AQXJhChpS8nPQuvA7qq6cwO4ZTthw0rzrGt3jHhFjLwrFzKQsXQcXkHl6dXAFtIWUjgFkVefA8xjbkXGcwMBoF39hWOuGE19U9TnlVbpUEy4qV628u7DOw8zIzFHb2ExxPPzv4IZLg6NwiYz67icxnHGXvB2BZ9GeT9PqiQSF",
	"LpOErYeqqdDxAQTmErA9rjNteUJPHao4PgdZRlPsqdUSGL0qKVtraP3gryhGPi3P9YaXuAWlWR4hwFMHjD6HmUsbU41pasdCIlPZ1bGEvdi5KxHaLBnWwWtDSXJNhkuxQ9mPExPLnxyRIrremBHxXpW7Kkc9U7dd5ygoBrGhq33P",
	"K4B6WHZ14tGTDh4gIkuOiHsXNQEkm0WGK3TH4mMSFHk4nYPakIa9GuVD6DywdgjZMRzmcw7Rp7qEzIjESa5ypophl869SAqa28A9gcINF6v2SehQJD1nClg3pL9Hk4zlTR5UtlYnCFW3Hy6FflGayZ5n17qtVTSS5shhfix7Olq7",
	"U1mA2JbX73sAFTluVH3TjQYwCmRpdWp1024umz5k5tSDIcBfQDr9fwEKObQbT5iOsIJFfMnv1pxPpEPAQXLomgyiozv7CQ3qwIzJvHfh83dFGF149bh9d7nSRYohn2YHZIJUW6fyQ0u3L1Oqqh85zPZWJzwtO4Qfw1BlKeHQLx2R",
	"UQM4aYhK9e7dbhkFW5tJZme8Ms79wbY6ywZPeG9zpLqji9md5nUHiFRJRg33kCrmW44WRl0vVURbBdrFf6dCDE4wm8bNAdKpjbpZTAO2rMG8CFKytQCX4jnvoj0rFPk9jlKJFkRMikmapfFceHwABlFU3LWiOqEqPQfFxFNPgCnd",
	"Kp93Tj9OK61Lz7wdcsusTDtQVx2rawRmA5PJCm3eRt8hiHpb3gJcrTUcUnJjgtSdIY3zEkoOmHUuKsNfKMHLmbgyFqDNmiZXyOYvMpHODVzlERlQHaU4QBcGiQ714PtM8aplhIzAktGp4ObKivtZjyjfDMgnDq78qH7ngV3v2FkH",
	"K6wDQoUH2QXpKlYRsQAyaQuNLwaP8CUqGtNy9zKmpT6CRYAxeUwdLpcexztr1mrzrfd9KswQbeDdzuTXzoeBfUjaN8NGQ9uCCAGzAeuTMM2C7mIaHxgRzC8hwsyiFTMksfidTSDY2LqypOLHbb2n4W0LCdDNWOY0dTuTIexRfgIR",
	"TyFxgBEdSnfQ9vdJpXh2QqfH67RsZuPaBLUINP8d0Djb9atN5qL92zffH5GOvV7cOT7dFSZlt9zlF24dLANorUrUX0hTzdeazCUwD5HbDbGBVIwENMOu2jcMf4JxFGPPRGozTvcwlk5TR0tJYYwyi6OuzoXr2nfItqTF4nzsXrBR",
	"ItKkkx6qsJXIWoKlvDMsdAHegkB00aE8E6TIK0M04Pa3oyOBZXhIdKAagssW9tV9rfkSDXfi8gbnI4QwtGCYnjR6bfvr27PWxMtdds5E1TqZaBZHTBma9KrTNtCJWvIHbtVyCvTVVYdt6tcfQm5boVJFyvKuKy9318n9GNc5kZ7z",
	"Sez1TQe8IW8sDxCQOrJ5Dx2cxTiFUOsAsQIAH9H52lNcEFmbe3B4gHQFHCIT4bZmTTkpIP600reruGRXgaaUgH9SmJkbAXqbBGPdYfR6dl6EnsSjhT1Aujp6Y2sghKDqCVwQ9GzrWoLETcXHYEMeyubhvuFhRVJ6rIwtLiK1gPjb",
	"HktDS8uvPiii85oXQIYKWbzUJuqKcooEMlK8hJ7ivvQhj9M3tUPlDntusznD9XPqQPrM7ffFot4Te1YP2eXkDJX02X3O7KvJIN9PHrRchLAewpCeouA5P5LLRvUMIiTS6Jpk3bTGqUF42Tw8ipjDcTuZPFPCgsNsy4vCL9rVWhut",
	"M0bBSvCiFgxOoDZWoa2wRKS48tjGyb2ENz5SRtN5yxqU1Lrwgaginz70EIgaOuuRQ8IAvmtLO1KiOnhMmmo8rDyiZG2zhJ2hDI24e1S6M0OYBhpsNr9AU9gZ1pUJlTMN8s3QUqe93sfTfDqIKEO2er9K8pVbwbnS2RFKWNCsqwwd",
	"Hsbp3lFYpCsUiYGgQqkecwkcXA6Gy0jqGSRXoSNMKPKEIGjDtJLLFZ86BnKBEcUGLuBTldhSHMbXaUH2iBlEQKgIobQHCSwAmDnDBP1oFNlavcex5ooftS7GQQ8xToaCUUrnGh4GQQN73H524VGh8kBVq4Nshtj1geknAQWcLAs9",
	"NG4FsKbngtExuQYDRwGhmakp6jspjt1Ji5asuV64Jiz2zHW2R4Xjtf8FpyPOyoygWb0zBgIfhRFa0U8qFXdiP21LqSf0DHmKix7Ygi8fug6WwYly57UIfvW15TT0ATy5PzD5FL4cnIDQKAc1SRBEZky9iZkr68mRt8yl7EmElTm7",
	"IBIxCb719I3yHRcDowdREVNhft5CvH8isECgmfkgYH6wAVl1cdKvRqvNu7Lqoh1Gfu2b5yatA9t5u0m9HJtdiyEw31yFLn8jJeLaNjMFIdBhGF16ogh4w68FZE0XdO0AQgarqLLLvGKio6NExgOCWzFGf2xvz1pmGqyUt6Kcoxrb",
	"RmzXucvvWZnNI4mooq2tCfNCFzdgJT7Nj7I1thvV7bshHfOwU0yBmP9y38zXKiz5bbBAtQlaXyLztqqWI1xvlTXCqKtHuDEk9wBebK452VDu0D4NNcZLkfkJvZXDpx8kWSoUSA9XJaaV9bUcjLcqqQICK67yu4C2ozOqtTZx1Igd",
	"JrnXtMWO8nuovD3b65upRmJ4ckX0MKmKv3bNv5FOg2JCyzpe3MuMxjDWWW3H2McAxQnDTqwjSVcmWFoR4CW2QLkziTB0901QA8xiNRgjcXHkYuDn9cXiU0RcKeho7nrEmYqpqlPwDplNZFk5EanSHzGhSQJK7BWIJHC5elgWi9nh",
	"SVFcMpbhtwIwdK9jmcFNpK7yi53eSBOgCJzCkEERdmSVZ885D5OYdwVIluXG1vcDfTt1CtMpU8Um3PsKlv4EM7gOxm5bm0knbweQ0IzsMS6kykmZY4NYAT4UQ433U7LK1PZoMYOAw79AJ1yhIDzMuh2s3rk0DWiyBqO7l4pBHlAR",
	"O3vgTwEncV4Fx19brpgt6mItMLI5sQL8LX8J1Qf0v0cck0Tix4OkB4nKTAM92wcXwGYpOeE6ZTlJ4os8f4UmP9hILrXvtbc7kymM4I5aSTR3mI6Myg1prut1KdcLvjkXQ8FfzgXrgqX2RJa3cXFu4AIeUPSXmBRca0uCOJvJNqGZ",
	"PXXFj2bT7NNAf4ugYs6V2ccDiYG5CK551Nkr0Dgzox45R28KW2mQYqKsOdi1nTMn9O7U89wAhuMv0mALdlgAkRQEnHvaKxt1ZQcOxig1UKqujJFdIJBdBc6rrEpa6pAxKLSZ4ct5LTL9uL3zQg9c5AGbgYEorS7KkkpmWuCGEaJV",
	"MO7RVIgMudW7e4Q7SKfDqLgvExMvE3f4igEaszR2yIgwM9DTeairCPysegzkQBNUrLO81l0lvGfxbnmgovqjVt2uwslBl0RziFbweEWELgzDW9y5LOkWSaTSPh1Fp6tDWwEcsJothws8QPc039Cuvz7DUTFBYFEQmwClZhbwzwwJ",
	"JYgeVeWSD4V52Vj6GvYyAgFEMjGASSMtBIqDUlmmWqFC4DV9EShSCoZhcMmfm9oO0F2O8jxBaMbHVeyNStvEg7paLQC0Rs1MPREKfw5MLXFInLnhMyyQkBSn7mDVHjSXKxjqe2Htm64QVm2F9uZJ9qzKsr4qcYL6vG2wkCrg1qgV",
	"N9xwB3oJf8NCuja1BBchESrYVD4W4IXM2e60z1sudQ4OwkltN6Ied9g7s9QHe7kxRSdsEXXRWkqeKKgw4r3C2beunrddt7Slr9Mo97KlKGCAJYEO0EarHg7Gu2u7hvWuM1OSeiuzvxa5L4wa2hJ2NAAhgHkSf5esG0lbvCNHkRkh",
	"KSV9TOJioqTSU2c8LMd0qf8IJjE50z93QXLd07kc8QsCVgM2uPTeg4h5gyE1QFsbw2Cn8SyHRIEDiqpyKy940g9aQBvHzZi8mD5qqhMn1nFsP4yR3FreqZ5HBSw4FaS5c4Yyng2iS8jmDuYtDq5Vj7jJOCijW7KhPYh9y7k7wpFj",
	"Oi62nfSqlEeAU2pIgJepZkgfhYMNTsGbzpYK8xcBgeql3pvWQ4mZgJI7ArtP41wZVedrJx1qInw6HCePoevVTOqY1AI6I6HHGUnJXotSxRFze79L0LWzpmk6HikQTkbDDr41R7D12jDFd2hBNxG7dI6fbgjrCapRUDJMxW7Uj1Np",
	"L0Vkojn8nL2vp9HBTYA8Fth4G02UUfrr9k5mo4KBEtvMyiucu2ceOPeWAL9GXpT64J7LYVMlNDrHBZNWvwxrvtBZUO2uwd5IEbnJeWSWrA0LgRXXjgBLXOosrX28wAVukNwksoObP9OI1zwAbxnhB4XQtaDrZOKECQZq7NtmNiaL",
	"QP3HJEuiSgvRHC09TZrzmFqlpMx7wHVtxIDwmqzCnEMLcnVFl32nycjK37gR2q30POP1dvjALQL33Yoe0svoZ4MUd2Hmj77BtKvbRnaMI8hCCOGHylbkt8RUDA9nCyYnLJS0ABgnAkHISmxryE77QUKISUAIcJ5JXcdSxb6q6fRN",
	"UyCCM3sregUJPbSPgrwu8vHOYuXURycxnkjOcVXiVIhUNo6UBQpCDOQwUls0wJ5SfNhrBJNtK4cmp1GoL7wjltlffkxfzgJGhmJWP7LdzbC3Kk5ovUtQbmg5lIWCQEE2tVTuMt7edr6TsM2ia4JlebwKr7dTXWHpVXhxuRsclMrj",
	"JcVOtNY4oR1GQ61mgAzYg7ErUodWeDgzsDuFtTjBEuJ1kUWaKwcxuGjUg6JQMVMwN8H2gin9FfdrFfzPbmYbaA3g4ejAIRWAV6jvUuSY35OltBOrqORzLwZtzKjBABsg1C5L2U8kKUa2op9K43LAlotr4UViMEvzEZjprLOnhjjJ",
	"UW8fxPCWsVhrE1Z21YSU0tsrYh2XioC8lJHU5Yhoy9Pu8KtRbLqHPyoWUxcRUdHubMg2DSDspnUChPLnKu9g4GDtbClzTMXKsbi2MlXQ1OGtwSGJtI7H4NSTALKN4pcoKi2vo1OPNSPdr8pjRrrlDFDFUb7xFv9zlOVSgN9rtoC1",
	"NDKb8uitlvaiqwV5m61AF88B8rmmK0evj1uGYpoAqBfjZdJfBij0kwmF6jyJwFJSAaOHz6afvRPgjjeAKRXNK1qSrmGwfxbQmcUREMYGWZ7hNZ74LABMu6Hx2cRdVRmScDaB043IDHsZNYiSuKWEILCNwotACqP5KHsUZmIv4y93",
	"SDm4BUUY7yyhmcBQSaZTo57TsPzG6sC5az1Q1HZhU3k9fiMubUjv1HzxoEwkv6skcPc4iFWwfP8Arz4x0W2zDoK99y24lfGMQ01RATL8kyrBpcD3LZavvcksdeqjvXPDp0lZUGVz0DpImLqOlSM5m2QU03bre3PPu7V4Fra77wdX",
	"J0p6elruGtUGuGEPyp2boqsb64hJs79JflF9piZh6LEopzh6lEwozvWBRyFXn6OfAKuaisl4BfPNndlw40VrQBlL8Zkg5A01qOufZES4TMwCOynxznBlUDPhxCXRfTHryr2gnDH4mgeAaA8eVgqbY95SAlySfC3dlVa1YEDWIc7d",
	"QJU8xz2dZelhgU1Sk25Tv4B6f7ZCkf9fXPt3gKtK7zcXn8jSiZBiyDXeujwWNPo4RvlMi8CDr2xi63QjKHd3bX9P5wobyZZrE6pbhAd8IzLGchlFWk2t00IMMZENwr365fxJDph3VV4khRTS3l432BzANL1GakO3h9mGCl2X8APB",
	"PpvWGswBYLVggp4svD6BlnJ3KJVmrE7tMAy7DHHMEeZdmzcxCdgaYuRQohFehV9UOseIcuytoUKTWmIKKOcvS50giof5BfyirPMrsgBevTimfVNr3d0j3HvGVy7Q1cvXsAerSJm93VL9h4dJYCgudLGVU6lWxjXBoE4BkhA3WusZ",
	"QvG2IsTDavGpitBUx0udeESsC7Di25O2LuUEdtDH8rVRX85xlJ2bVbVXd0yKQS5MEqrdpg50hlXJfFEuvy4nuaoy4aarpPViGnz324G31FfWLEq5IIYKEVl7xsnmkoKjjYRjaw4FDC5jthFi1nghLAzR9EGK0bKzhGcH68C9ncTH",
	"LwEWBfFlU0hgI4Z7cDZqhNFAD1bTiot0E5jOWaLi3OdFkUW6YC4YLb4BT9DDbB5IsKhK0IjtzZrNYiksZtEgBFVCk2WSFGS5N7KSwidOo9G9J1K9VhPYZGRIuuIQLfOgb4kazR4g0cQ0iojSFvbrRJ2lFI4WArCzkWUQJckxwamr",
	"QYAfF4rgyWsaQ8XI0vdVeFbaguEBRCgnAQWCd9EVTJZ0IIjFHKQhAiAZQagckJt96igspEP8Q63EOCoBZD325s6YHKYrsGOGv9iwOo7dbHUMaxDveIXku51n8ah0ZuS4r6SiM0ICBM2rmwJgcS4IzOQY26zdlZQKDAXyQk3uoOqF",
	"OqDR8HoipaZmx5lJIv09rkumD6LHXFKYFsujqXblJMpAL1x7QbUoCkQxlDxMMPOgjieZJAqnLmIXvZmm7FN7jXXjb3vCh0YekbbG1OcFZf8LlaQqbvfnpmcBZAP79mi8K0Ukxg7Z11xduIBPNVdOeRNEvGK5Hfhft5VobJGAHjC3",
	"KzCo13pvdSW7y88ZRQOKsiQvlX3O28tESGYkoENZyPH3vmCECS3ZhSwtCby6NGnhobp9CzwiU92nDAPQ24EybojT63G2zrccgR69qcEnJOXxRyfwo1A6sx7nbHHgRpneLuzgyZwntzneHOrKgD5cr6e7t7np7JWqn6Em4V3Wh4Qh",
	"NeEfRgirZ1qyeMJUHQGnlpB5f8jBy6aithenn8uPJVVVMVc03g5S6E2XSZ4AVBz1puomB2r6E1ucPnHE3xkzQHpSMWvYrtrCOtTT6KePneOPz7hnr5N4Fx64KUTmmKv7CkeKb19S01qDSowJgpGaMBYaqQAOapuNMc2GJxG3sutr",
	"SteE6h4y4fEmfwnho985G06exNFjvMEfIqkZIho59GUEOtfuPUfvEsnuSqF1y1bBljVYaVwI0SUkPjxhaEpxGfjohxRzFlWhE6y8GQSynvCWUeoR3OXWMjgeyFLlesmrhtdm2oE2pq38cI3XGa7mKpBgfQ4EJj2OOTmYU7nFrpCf",
	"TQTF6rvyD0T4L9la1a2w2MBcxZG867gy6lr9juva4zBtVgdeebXUra2MdPFhbs5AbsAUZUEeDJYkcU6Q7kvuzVBgRn7jD4223s7wLYahn71RKlC1QQjRMbRypYrw38wUUbvEdmkz7Gw8uhWnjMSim8lt6oqkNSLPVRxCRpCaS9rj",
	"LLtPSZbCTWV8meErIMUA02sxTlLkqycwcemrg4khibUctz0celo4XeKvSgoNxDObWRYbemHobPT4LGXAGeyvxD1OYUfIWAGBpKmytFeO7u7FuNFlMPzmom3GgLPWnoLlljxgdmAKaIZutz4koAmkFvrqQLCj0Op7lCmryJKOq045",
	"QUKpxf2TpTnbID1wR7MHkGpujCe6x3xAlzHrCz45Fj8vM3UlxGS1Lrqdlwjb16jGPNxpUs5eQaYornYIT3cL17SLu7YsFSJc4fLRLijAABrbvb9Uyc34e0z92e4q7HjrexfkHewih0BjRuAmfcJ3pwwypaMfhbKTiVPxFpILuR9j",
	"NhzpbZAfIdOTsN46qpCDwA86oxv62gcRNDSc1WyywWChSOkk0FW6fmBbpJAklqPPIPO24JgEII3Xau8tTKjtUl2VHpVzzyFuG8pp0oZegRzIfAwMG7zD41wlYtZWPlkXjEjxwtzT7gtcmsAH95pEKTmCs22ZtnBDcaJa8Jv7ttK7",
	"PtLUg7amsyewslHxPApCApAWog06vH3vqTvBFxWoXD2j8OaQ66DPlJcuR832RN3guUcsxYmP1IPJki6jaFkoOO6w9iqyo7Pl0ejeLqjDid8jWpGdjKyAUWFjXADa4SNeDESjFXLTfnLj8I0d7gW7cFeq41MBx37JbTBQbeuZJZT3",
	"OMx5bl3UShDj19WMyzcUNGn6KkpjVNMmxkfgRKiy5ldcIvcvxunGgCyXcajdwir9FZK3WrKTDr0pcrzVNz4KUXMVVxoAJClxlsXHI2VKdqpHqPrKQiWj29LrShTUDmyAWWV65G5M9qMep3FrouA3V8TB5UB4PuGKjWXFQdMSL4zB",
	"JYr2YDfbhI3WloTGfZnB97OlqNgDItihoinqkfgPHkFVJTmvwGMjGOoBPgLMCuTOWpahPaqWnDBv8tGyphMefR8V0e20OR0NauwHbhE5SHmpNvOlYZ9x8SPPKe4yPi95fLl95z3bK9LazCyKRDKhM82yy7jo6ELqoXFgm0wd0lkz",
	"Tvvl6HJZfb11ntsXF1MG56WuWISrVo0XN5xheXNUg0u7jM2kMOqGM58B3I2beBF1pfVP6GicXS9WKs90WQxJIJhvbdmTlGDh0qDoROpocQQm6qDgLSGGPHE8q5SotkrGjMVRR2YxMqGTAIzCjD8XJ1OYsL7UmVOsG8x0idAOoHw1",
	"QI1W9ENSzKZQ9xNo2xHOLKEA6Y14tuGB3GYcfIOM5N9NhcJWxdRFYZmNqD3TGRSr5YNg3U0ECpuU9qhrTbMyOAtZGi4863nxIkdgVYbr4izdku8gvvwrKflyjhGcC4dhpEwdDgXJbk5lBjfM4Dq87Hg2cBWrneTAvDWD230qarRF",
	"JIFAUWuIA3BSOfgyD22C1755fPobJ30mFdAMe1281wb8QtyjVQNiVy6TDLTzpxw3RF5oK8BbpyC1sHIcZKdG61uWEyjMEnWewwtC8PLO2Zj3xnOrKiF2GdebEXeTSCWr2fHd2H524M2Kcb0YYlyxshu3Dw0hgP6FbNNtFdKYmmd7",
	"NtI57jkXvkoqQprv1HshUaOB8yqrpMAT3CnuBtrISrl6u7xeMD3M1Aa4efviEThEqqkZKrxw96NzCgT7hUd7dJV8Ya8v5BxNwHZFcNHROXfTMF69zrabmv3ah9no6lxxQK9bH2ubmJWpdryyQ1MtH8eUhy1neht1ckDGBWfgURZR",
	"PLZzjtafUQCRc3bD6QlJVMw4QEhOISG2Kt1PQfUxlp2Qq6Fvdl1otppj0gM2IrAPXn9OvcNZNFlw0AhyiU9ZAIE2gcE10MHpux4jI9dWluqrVyfngdgzyV2HceN8j4UalBqwaWyk8e2xPKRqDrYst3UkHouJXpmhBB3Z08xfUPTh",
	"L4dPlC20mBw9dcVHw8fNV3rQdJG5uhwHbmSBnNbVblikiUsyTYFC7s0KLWzn9L53L9qw9rbQoRviHBEIGWkKqBCEyXg0aci0iaio7iwYxsmoBdmw4UXu7MUuBUQ3l5nfD3pXbz9cvNfMt0No5zCrZk4psT8zZWwGsSQ5q76JD2ZL",
	"UrcqN9ERpvEviz2aMIDMibn9ieW78mf5UBARrgUWe7YYBnI2eGh11OLSxDmNSvuzVyCAMqoFJwyt2X7wmvtBJdJSO2G1KyJjdzyE9xZe6dlO7ZKsK0ecFnbhNL1VEbRofYoNJHXcZSU2mCT15YMSEQjuPAdi7Dlp4NIXdYRWWkqB",
	"RTS9sNMx0vhMA6b66POMQyUZrThdzoSuEQzRbYLlPs7OuhEXaPWfsDDgfkhsN7Fhc0pcVJrXErufhehGLDdjoA9G1TJR1JYFss5rzeODngA9DNWOmNuBWj8L3faeL3SSfuyV70U1Pv077SoK58qybZmvjArpX2MU23iEzuSXtUZh",
	"KaRis6KTnfwK5GiF5NNZ48ueao6I8Dw4R4vpDz53I0Cn53CWNEn8tiBQRdCZlRBmVwymg8OqR2Jq9ukSWADYbsqNYtUIgAlm3Vvv6JUq6rZkGDRSnQgPJXVL9AcGalPKddPheXdZGrMIuGius1OyU7WwzXljs9wv1HRtV1xtBZO1",
	"OpguoEKlxuzoeIASpk0ORZ7xUXi8VgXu8cECPX3egOwPTUAeAqQ90s7woQYtTkGXVxgnP4WPV5MrSIJ5FxdArgVwW7v3ds3T1ee39yrIhMREbze2tw3VAN6iSdJtsnyD582RvSjXEiQnvhxKXzxGNo4mr64xMl8LI5yy5z8U5iOd",
	"RXxoL8YusdBmOojagamLtWmK9DZ1xvDZgaLHPpeB6f21K4u65dpDkmbVi3moeLCRl9qiZcKZ8pWqE5APsKWlf017K2RXAcfPsormA6WZoOIZriCi92MRUpMEoWXdMQryuuKhRD7cZ6jyoHVrXd1Ai4jZBqQnewXbWpNbN95mwwqL",
	"HaRTv8gTlX5o5g9ysN0SjmXBqtGcmepHWdhB6KRss2fmCz7eMWJBdLvXmBrIZYcvtivrQwM4W52bwz73FYnyRAakSZUvSIgW48CB8pTKQ4fATSOIMZuuBiQ8khKODx6bEHH8lPTHyZwJ2RTKl05yZXJDioEzR3LTeosbmEVJYiNJ",
	"ODOvXkA6P1z8VxEYmYDuQU1TBRTqX2asHu859LQV7UP2y458H4yXimruqxIpFslfWPikXsYq0YqiUbARr9TMUq0JNqS4r2wwwfcmW5XLzu03t6Vpwi2yyMSGQclhS86ezwzi38WCJSV6xpxtqPXbjfGpUseHPQephSanO4SyQdRh",
	"QIp9AR7GPXmCgGESlflUqiRx6RW74OuZbUvPP1iIIpzUzHqxSClGLiIMlKREWLpvVD5RCimK2QFnQZ2FrC0aEbQR4icbKYwiNKe4t7WGGsiGwVtDN6I2vro1MRjcGUtPCAaxYr378LhoZp0aopOKt8Un2zF9YkRycwI5z8mgwXrx",
	"TQXiCTQQu54eWGYzgOtKeprp5QpzXiwcai1cvWpEBuAed1i5712Pc3JTkcz1F5iUu6jxONW3GrRBb22T2jpDrXxlLLAC4XcDCLkuuAFWgjBrsjqDtxbk7LnjqO2GrWKkQEC7GLxYbACCVaiz98agDTUDpO1CpmgtvJtzKqri0jQx",
	"IqHQZbhgiddZoaCmKpZDWKUk5iWgNpyTRiq5WcFcoOrGtpM1TeRDnZIo1XqNVISIoTYSTjMexseTs695saK3Ine13M3smBldAzEbrJdYKqyRp2q3fz3osLDZs3ms9zT07iP424mOSN1HWgkNgZmfTvV0Ai0daOTw58aLpvl1BsHR",
	"HStTsaFHAB2ZJOVxDJ32Lmcmd9xiL7u91ruIcSb3jDwpxC5XAKuzoyJKBzxGDHFDUzo6EvewnqC6E1DX06PsIOCGSgfBPP3cxCDt3NMPYggjT7AJHyNsgy9ruNBqJLzMbugartAtFljlTadaPaVxVorY9ydGyBNzrf6xmfPuAMhV",
	"Jwvmy8I75L1aqpITayrTQRkv9iWYUCOGclvroKTtbNI4YOMVoV25wFYnOeYBXY96fazQ3vEkuzxswWittbXJRpT9KwzrkXRf5xTvW92LVoUgkdVagrnphWRZtFsRUZK3vSCmSKn5yKA5y1k1DwQmoYIBZgL9iipK8a98Cy28Faij",
	"Jg4qqnwv6xKQ8xSgispljqxi1XTQT0lGwyZG4LZ5587rW0IC1yr9T2TOZGmlpmSllw4AWXXHnBmSxZF8JJbQBLTPePc0XF1z4GxrBGXINOt2AywEgKvxqt9dARTQwQPXr42TgSX4FMEsi2mfz0BkmpDg1MDjJwDnlLYYLO8YWjYF",
	"HCuLWfpu40FsLWUfUfznkP7CGByaoCMEmg5T5cPLowD7GxGZDkZZsBeYaTo0nvaolYZi26jZn3K0tT9qRzRbw8u2bxhEiubZeLzZY1CvnGJrd2dREb9b2YIpHnx7MNRFDRdIo20v01bhBPlqohcTw58OHmW5FFaXIkZ0t6ebFQBx",
	"MIITzrq3VEFIk0eAmNJ7FnwYW1pPy1F3zfMtszCqL6pp3sPfpNXx7CfZn06YnpJq1nyHF6fNRtdtx5cRxHUcZPpzCr7iTh5wKQAwDLGqSZT3QZg2C0xs9vTynExnmxQ0oCtodQCnAeE4aIMUKSPpzzuymoXPx82tMwaWhmU1oTk3",
	"KHpJVYDNjWTUwVPQ6giMt90VUX9WZRk23NX8ydm4AB7T266kdshmtJTqRZu6stjfcTbKwsiePcrpIvJ4vKFkBvRKFgP6inYLdnjZnlNTn23A3WMPMTHNmnOtFtQZAeB8FUAuuniJSGlpcGje6oAfUScaobn8GqVgN18xHMWTDEax",
	"M7eWOft3dMoD0RU1xCzeS0vXZdEaH6GacYTsYhBAeIRJAMSnnTW3qZ5jTmP08lXE8oDhi9lIlM0EaYo44WaxR5MLK4CoAWUB7yrUnNTe3gDC9fpsVHJIz04nIQ2xHgFNMWDDp9lbY7LLoexHwFi0Kjrge934hKssYKvSOZmnBlV5",
	"OdgvDbao8JBXB6H2aK0w2fdVUvkz6E5ZnbKr8bPPtBvFeVENuAtOtZGgPbQQWXlgvuJMIHB01fVIiL8B21WBfV0gLeJawFdXqllp8XTTzTrL1PWdzXL2zpwOXZmT6XOJmuPbZgOxrUVXkGMhAdHOAr3kR3iyg7y8qixJGTBsTwbJ",
	"KWhllrHhiIlxDzruMMFtbLkGS31vIFRglYrFp1KRwahnN8bcViLeMtk40Mhrd4jhFeA9k8MqIMP21iCB00DZP1N3peLSclrh3D1OhPgAIOHcBwhTatz8qNxyNulSxn2Mca1HXwEbn6OrmBTnuTOSpaannWQUvt2FHjDgUicBv0Pr",
}

func init() {
	for _, s := range primePool {
		p, ok := new(big.Int).SetString(s, 62)
		if !ok {
			panic("prime pool")
		}
		primes[1024] = append(primes[1024], p)
	}
}
