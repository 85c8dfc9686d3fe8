"""Which scenarios a property's check generates: for every property a list of
(share, profile).  A profile overrides knobs of gen.DEFAULT."""

FAIL = {"nan": 5, "alarm": 5, "avail": 4, "func": 4, "value": 10}
ON = {"host": {"on": 1}}


def P(weight=1, /, **k):
    return (weight, k)


PROFILES = {
    "C01": [P(3, fsp=0.8, zerofsp=0.2, ops=FAIL, timeout={None: 2, 0: 4, 1: 2}, fans={1: 2, 2: 3, 3: 1},
              variant={"default": 2, "strict": 1}),
            P(2, fsp=0.5, zerofsp=0.5, share=0.5, therms={2: 3, 3: 2}, ops=dict(FAIL, ext=5), tkind={"dbus": 4, "ext": 2, "sys": 1},
              keep=0.5, variant={"default": 1, "strict": 1}, uaf=0.4),
            P(1, zones={2: 3, 3: 1}, fsp=0.7, share=0.4, ops=FAIL, variant={"default": 1, "strict": 1})],
    "C02": [P(3, ops=FAIL, miss=0.3, share=0.4, therms={1: 1, 2: 3, 3: 1}, uaf=0.3),
            P(2, ops=dict(FAIL, ext=6, tach=6), miss=0.3, keep=0.6, timeout={None: 2, 0: 1, 1: 3}, tkind={"dbus": 3, "ext": 3}),
            P(1, zones={2: 2, 3: 1}, share=0.6, miss=0.3, ops=FAIL)],
    "C03": [P(3, tkind={"dbus": 1}, fread={"dbus": 1}, ttype={"temp": 3, "margin": 4, "power": 1}, timeout={0: 5, 5: 1, None: 1}, keep=1.0,
              ops={"value": 6, "nan": 5, "alarm": 7, "avail": 6, "func": 6, "tach": 2}, nops=(20, 45), uaf=0.5, zones={1: 1},
              inputs={1: 3, 2: 1}, therms={1: 3, 2: 1}, steps={0: 1}, ignoff=0.05, redun=0),
            P(1, tkind={"dbus": 1}, fread={"dbus": 1}, timeout={0: 5, 5: 1}, keep=1.0, uaf=0.5, zones={1: 1},
              ops={"value": 6, "nan": 5, "alarm": 9, "avail": 6, "func": 6, "tach": 2}, nops=(20, 45), redun=0,
              variant={"unc": 1})],
    "C04": [P(2, timeout={None: 3, 0: 1, 1: 4, 2: 3, 3: 2}, keep=0.9, ops={"value": 8, "ext": 6, "nan": 3, "avail": 2},
              tkind={"dbus": 3, "ext": 2, "sys": 0.3}, therm={100: 2, 200: 2, 250: 1, None: 1, 300: 1}, zones={1: 1}, uaf=0.1),
            P(1, timeout={None: 3, 1: 4, 2: 3, 3: 2, 5: 1}, keep=0.5, late=0.5, zones={1: 3, 2: 1}, dur=(5000, 9000)),
            P(1, timeout={None: 1, 1: 2, 2: 2, 3: 1}, keep=0.0, nops=(2, 8), ops={"value": 1, "ext": 1}, cycle={100: 1, 50: 1, 200: 1},
              therm={100: 1, 200: 1, 250: 1, 500: 1}, dur=(4000, 7000))],
    "C05": [P(3, therms={2: 2, 3: 3, 4: 1}, steps={0: 1, 1: 2, 2: 2}, ceil=0.5, acc=0.0, ops={"enable": 5, "value": 20, "sys": 6},
              therm={100: 3, 200: 2}, nops=(15, 35), timeout={0: 3, 5: 1}),
            P(3, therms={2: 2, 3: 3, 4: 1}, steps={0: 1, 1: 2, 2: 2}, ceil=0.4, acc=1.0, ops={"enable": 5, "value": 20, "sys": 6},
              therm={100: 3, 200: 2}, nops=(15, 35), timeout={0: 3, 5: 1}),
            P(1, therms={0: 2, 1: 1}, steps={1: 2, 2: 2, 3: 1}, ceil=0.8, acc=0.3, ops={"value": 20, "sys": 6}, therm={100: 1})],
    "C06": [P(3, ki=0.8, kd=0.5, ff=0.6, slew=0.6, hyst=0.05, chk=0, nops=(20, 40), therm={100: 3, 200: 1}, timeout={0: 1},
              ops={"value": 25, "tach": 8, "sys": 6, "nan": 1}, zones={1: 1}, tkind={"dbus": 4, "sys": 1}, scale=0.05,
              argv={"": 1, "-g": 3}),
            P(1, ki=0.9, kd=0.2, slew=0.9, hyst=0.0, chk=0, nops=(20, 40), therm={100: 1}, timeout={0: 1}, ops={"value": 25, "tach": 10},
              zones={1: 1}, scale=0.0, norm=0.0)],
    "C07": [P(3, hyst=1.0, chk=0.0, ops={"walk": 60, "value": 12, "sys": 8, "tach": 6, "nan": 2}, nops=(25, 50), therm={100: 1}, timeout={0: 1},
              inputs={1: 1}, steps={0: 1, 1: 2}, therms={1: 2, 2: 1}, zones={1: 1}, scale=0.05, cycle={None: 1, 50: 1}),
            P(2, hyst=0.3, chk=1.0, ops={"walk": 40, "value": 15, "sys": 8, "nan": 2}, nops=(25, 50), therm={100: 1}, timeout={0: 1},
              inputs={1: 1}, steps={0: 1}, zones={1: 1}, scale=0.05, ttype={"temp": 3, "margin": 1, "power": 1}),
            P(1, hyst=0.8, chk=0.2, fsp=0.3)],
    "C08": [P(3, therms={0: 1}, steps={1: 2, 2: 2, 3: 1}, ceil=0.3, hyst=0.2, ops={"value": 30, "nan": 3, "sys": 8}, nops=(20, 45),
              therm={100: 1}, timeout={0: 1}, zones={1: 1}, scale=0.05),
            P(1, therms={1: 1}, steps={1: 2, 2: 2}, ceil=0.6, ops={"value": 30, "nan": 3}, nops=(20, 45), therm={100: 1, 200: 1})],
    "C09": [P(3, ttype={"temp": 2, "margin": 4, "power": 1, "powersum": 3}, inputs={1: 1, 2: 3, 3: 3, 4: 1}, ttm=0.6, hyst=0.1,
              ops={"value": 20, "nan": 4, "ext": 8, "sys": 4, "avail": 4}, nops=(20, 40), therm={100: 2, 200: 1}, timeout={0: 3, 5: 1},
              steps={0: 1}, tkind={"dbus": 4, "ext": 3, "sys": 1}, zones={1: 3, 2: 1}, uaf=0.3),
            P(1, ttype={"margin": 3, "powersum": 2}, inputs={2: 1, 3: 2}, ttm=0.9, tkind={"ext": 1}, timeout={0: 1},
              ops={"ext": 30}, nops=(20, 40), therm={100: 1}, steps={0: 1})],
    "C10": [P(3, fans={1: 1, 2: 3, 3: 2, 4: 1}, fanpids={1: 2, 2: 2, 3: 1}, ops={"tach": 25, "value": 8, "nan": 4}, nops=(20, 45),
              zones={1: 3, 2: 1}, timeout={0: 1}, fread={"dbus": 3, "sys": 2}, therm={100: 1, 200: 1}, fwrite={"sys": 3, "dbus": 4}),
            P(1, fans={2: 1, 3: 1}, ops={"tach": 25, "manual": 3}, nops=(20, 40), therm={300: 1, 500: 1}, timeout={0: 1})],
    "C11": [P(3, ops={"manual": 12, "ipmi": 3, "value": 6, "tach": 4, "get": 4, "nan": 3}, nops=(15, 35), zones={1: 2, 2: 3, 3: 1},
              fanpids={1: 3, 2: 2, 3: 2}, fwrite={"sys": 2, "dbus": 5}),
            P(1, ops={"manual": 20, "get": 4, "value": 1, "tach": 1}, nops=(15, 35), zones={1: 1}, fwrite={"dbus": 1}, steps={1: 1},
              therms={0: 1}, timeout={0: 1}, fanpids={2: 1, 3: 1, 4: 1})],
    "C12": [P(3, cycle={None: 2, 50: 2, 100: 1, 150: 2, 200: 2, 250: 2, 500: 1, 700: 1, -100: 1, 0: 1},
              therm={None: 2, 50: 1, 100: 2, 130: 1, 200: 1, 250: 2, 300: 2, 400: 1, 700: 1, 1000: 2, 1300: 1, -1: 1, 0: 1},
              zones={1: 2, 2: 2, 3: 1}, dur=(4000, 9000), ops={"value": 15, "tach": 5}),
            P(2, late=1.0, cycle={None: 2, 100: 2, 50: 2, 150: 1, 250: 1, 500: 1}, zones={1: 2, 2: 2}, dur=(4000, 9000),
              ops={"value": 15, "tach": 5}, timeout={0: 1}),
            P(1, argv={"-l": 1}, zones={1: 1, 2: 1}, ops={"value": 15, "tach": 3, "manual": 4}),
            P(1, cycle={None: 2, 150: 1, 250: 1}, therm={None: 2, 300: 2, 400: 1, 700: 1}, zones={1: 2, 2: 2}, dur=(4000, 8000),
              ops={"value": 20, "manual": 6}, timeout={0: 1})],
    "C13": [P(3, fans={2: 2, 3: 2}, ops={"value": 15, "nan": 3, "tach": 4, "manual": 2}, fwrite={"sys": 3, "dbus": 4, "none": 0.2},
              nops=(15, 35), fsp=0.6),
            P(1, wfaults=0.8, fans={2: 2, 3: 2}, ops={"value": 15, "nan": 3, "manual": 2}, nops=(15, 30)),
            P(1, steps={1: 1}, therms={0: 1}, fans={1: 1, 2: 1}, timeout={0: 1}, fwrite={"dbus": 1, "sys": 1}, ops={"value": 20, "nan": 3}, therm={100: 1})],
    "C14": [P(3, confdamage=0.0, zones={1: 3, 2: 3, 3: 1}, fsp=0.6, hyst=0.5, chk=0.2, miss=0.3, uaf=0.4, ignoff=0.3, ttm=0.6, acc=0.3, ceil=0.4,
              steps={0: 2, 1: 2, 2: 1}, dur=(1500, 3000), nops=(3, 12), redun=0.05),
            P(2, confdamage=1.0, dur=(800, 1500), nops=(0, 3)),
            P(1, hups=1, dur=(1500, 3000), nops=(3, 8), zones={1: 2, 2: 1})],
    "C15": [P(3, dbusconf=1.0, dur=(1500, 3500), nops=(3, 12)),
            P(2, dbusconf=1.0, cfgops=1.0, dur=(1500, 3500), nops=(2, 6)),
            P(1, dbusconf=1.0, profiles=1.0, dur=(1500, 3500), nops=(2, 6))],
    "C16": [P(2, hups=2, term=0.6, dur=(2000, 6000), nops=(3, 10), variant={"default": 2, "offline": 1}),
            P(2, hups=4, term=0.5, dur=(2000, 6000), nops=(3, 10), variant={"default": 2, "offline": 1}, zones={1: 1, 2: 2}),
            P(1, term=1.0, dur=(300, 3000), nops=(2, 12), ops={"nan": 4, "manual": 4}, variant={"offline": 2, "default": 1}, fsp=0.6),
            P(1, hups=1, bootfail=0.7, dur=(2000, 4000), nops=(2, 6)),
            P(1, dbusconf=1.0, cfgops=1.0, hups=1, term=0.4, dur=(2000, 4000), nops=(2, 6), variant={"default": 1})],
    "C17": [P(1, ops=dict(FAIL, ext=6, value=4), nops=(30, 60), therms={2: 1, 3: 2, 4: 1}, inputs={2: 1, 3: 1, 4: 1}, therm={50: 2, 100: 2},
              cycle={50: 1, 100: 1}, miss=0.2, uaf=0.3, zones={1: 2, 2: 1}, share=0.3, keep=0.6, dur=(2500, 5000)),
            P(1, ops={"burst": 10, "nan": 10, "alarm": 10, "avail": 5, "func": 10, "value": 10}, nops=(80, 160), therms={4: 1}, inputs={4: 1, 5: 1}, therm={50: 1},
              cycle={50: 1}, zones={1: 1}, timeout={0: 1}, dur=(2000, 3500), steps={0: 1}, tkind={"dbus": 1}),
            P(1, ops=FAIL, zones={2: 1, 3: 1}, share=0.7, therm={100: 1})],
    "C18": [P(2, ops={"ipmi": 25, "manual": 3, "nan": 3, "value": 4}, nops=(20, 45), zones={1: 1, 2: 2, 3: 1}, steps={1: 1}, therms={0: 1},
              fans={1: 1}, inputs={1: 1}),
            P(1, ops={"ipmi": 25, "manual": 3}, nops=(20, 40), zones={3: 1}, zoneids=[0, 1, 2, 127, 128, 129, 200, 254, 255, 256, 257, 384],
              steps={1: 1}, therms={0: 1}, fans={1: 1}, inputs={1: 1})],
    "C19": [P(2, zones={2: 3, 3: 2}, share=0.4, ops=dict(FAIL, manual=5, enable=4, ipmi=1, tach=6), therms={1: 2, 2: 1}, nops=(15, 35),
              cycle={None: 2, 100: 1, 150: 1, 200: 1, 250: 1}, argv={"": 4, "-l": 1}),
            P(1, zones={3: 2, 4: 1}, share=0.5, fsp=0.6, ops=FAIL, therms={1: 1}, steps={0: 1, 1: 1}, fans={1: 1}, nops=(15, 30)),
            P(1, zones={2: 1, 3: 1}, share=0.0, term=0.5, fans={1: 2, 2: 1}, ops={"tune": 3, "manual": 4, "value": 8}, argv={"": 2, "-t": 1})],
    "C20": [P(2, ops={"enable": 15, "value": 15, "nan": 3, "get": 3}, therms={1: 1, 2: 3, 3: 1}, steps={0: 1, 1: 2}, nops=(15, 35), therm={100: 2, 200: 1},
              zones={1: 3, 2: 1}, ceil=0.3, acc=0.3),
            P(1, ops={"enable": 15, "value": 15, "nan": 8, "avail": 3}, therms={2: 1}, steps={0: 1, 1: 1}, acc=0.0, nops=(15, 35), therm={100: 2, 200: 1}, fsp=0.7)],
    "C21": [P(2, ignoff=0.7, ops=dict(FAIL, host=12, ext=6, tach=4), nops=(15, 35), host={"on": 3, "off": 3, "none": 0.5}, keep=0.6,
              tkind={"dbus": 4, "ext": 3}, uaf=0.4, redun=0.3),
            P(1, ignoff=0.7, faults=0.6, ops=dict(FAIL, host=12), nops=(10, 25), host={"on": 3, "off": 1}),
            P(1, ignoff=0.8, absent=0.3, ops=dict(FAIL, host=12), variant={"missing": 1}, nops=(10, 25))],
    "C22": [P(2, tkind={"ext": 4, "dbus": 1}, ops={"ext": 30, "get": 8, "host": 2}, nops=(20, 45), keep=0.8, therm={100: 2, 200: 1, None: 1},
              timeout={None: 2, 0: 1, 1: 3, 2: 1}, zones={1: 3, 2: 1}, ignoff=0.15),
            P(1, tkind={"ext": 1}, ops={"ext": 10, "get": 4}, hups=1, nops=(8, 16), dur=(2000, 4000))],
    "C23": [P(3, argv={"-l": 1}, ops={"value": 10, "nan": 4, "manual": 3, "enable": 2, "tach": 6, "ext": 4}, nops=(10, 30), zones={1: 2, 2: 2}),
            P(2, ops={"value": 15, "nan": 4, "avail": 3, "ext": 5}, ttype={"temp": 2, "margin": 2, "power": 1, "powersum": 2}, inputs={1: 1, 2: 2, 3: 1},
              therm={100: 1, 200: 1}, nops=(15, 30))],
    "C24": [P(2, argv={"-g": 1}, ops={"value": 6, "tach": 3}, nops=(5, 20), scale=0.03, norm=0.0, therm={100: 1, 500: 1, 1000: 1}),
            P(1, argv={"-g": 1}, ops={"value": 2, "tach": 1}, nops=(1, 5), cycle={500: 1, 1000: 1}, therm={1000: 1, 2000: 1}, dur=(62000, 70000),
              timeout={0: 1}, steps={0: 1}, therms={1: 1}, inputs={1: 1}, fans={1: 1}, scale=0, norm=0, keep=0, zones={1: 1}),
            P(1, argv={"-g": 1}, hups=1, nops=(3, 8), dur=(1500, 2500), scale=0, norm=0)],
    "C25": [P(3, argv={"-t": 4, "": 1}, ops={"tune": 20, "value": 8, "nan": 4}, nops=(12, 30), therm={100: 2, 200: 1}, zones={1: 2, 2: 2, 3: 1}, fsp=0.5),
            P(1, argv={"-t": 1}, ops={"tune": 4, "value": 4, "nan": 10, "alarm": 5}, nops=(12, 30), fsp=0.5)],
    "C26": [P(2, scale=0.7, norm=0.0, tkind={"dbus": 1}, ops={"value": 25, "tach": 8}, timeout={0: 3, None: 1}, fread={"dbus": 3, "sys": 1}),
            P(2, scale=0.0, norm=0.8, tkind={"dbus": 3, "sys": 1}, ops={"value": 25, "tach": 10, "sys": 5}, timeout={0: 3, None: 1}, fread={"dbus": 3, "sys": 1}),
            P(1, tkind={"sys": 1}, fread={"sys": 1}, ops={"sys": 20, "tach": 20})],
    "C27": [P(3, redun=1.0, fread={"dbus": 1}, ops={"redun": 15, "tach": 6, "nan": 2, "func": 2}, fans={1: 1, 2: 2, 3: 1}, nops=(10, 30), zones={1: 2, 2: 1},
              timeout={0: 1}),
            P(1, redun=1.0, fread={"dbus": 1}, faults=0.7, ops={"redun": 15, "tach": 4}, fans={1: 1, 2: 2}, timeout={0: 1})],
    "C28": [P(2, bootfail=1.0, dur=(1500, 3000), nops=(2, 8)),
            P(1, absent=0.25, dur=(1500, 4000), nops=(3, 10), variant={"missing": 1}),
            P(1, bootfail=1.0, dur=(1500, 3000), nops=(2, 8), zones={1: 1, 2: 2}, hups=1),
            P(1, absent=0.15, dur=(12000, 15000), nops=(2, 6))],
}

# how many random scenarios
QUICK = {"C15": 48, "C16": 48, "C24": 36}
THOROUGH = {}
