"""C34: enumerated value tables against the standard and against each other.

The reference numbers are those of the Green Book (DLMS UA 1000-2, COSEMpdu ASN.1 module) and the Blue Book (DLMS UA 1000-1); Interface and
ChannelNumber are the package's own numbers, which saved configurations rely on."""
import os
import tomllib

from absint import ClassVal, Obj

NAMED = {
    "enums.Interface": """
NO_DEFINED=0 OPTO=1 RS485=2 PLC=3 GSM=4 NBIO=5 ETHERNET=6 RF=7 LORA=8 WIFI=9 BLUETOOTH=10 ZIGBEE=11 MANUFACTURE_30=30 MANUFACTURE_31=31
""",
    "enums.ChannelNumber": """
RESERVED=0 OPTO_P1=1 P2=2 P3=3 P4=4 OTHER=5 INNER=6 SERVER_KEY=7
""",
    "enums.ContextId": """
LN_NO_CIPHERING=1 SN_NO_CIPHERING=2 LN_CIPHERING=3 SN_CIPHERING=4
""",
    "enums.ACSEAPDU": """
AARQ=96 AARE=97 RLRQ=98 RLRE=99
""",
    "enums.VariableAccessSpecification": """
VARIABLE_NAME=2 PARAMETERIZED_ACCESS=4 BLOCK_NUMBER_ACCESS=5 READ_DATA_BLOCK_ACCESS=6 WRITE_DATA_BLOCK_ACCESS=7
""",
    "enums.XDLMSAPDU": """
INITIATE_REQUEST=1 READ_REQUEST=5 WRITE_REQUEST=6 INITIATE_RESPONSE=8 READ_RESPONSE=12 WRITE_RESPONSE=13 CONFIRMED_SERVICE_ERROR=14
DATA_NOTIFICATION=15 UNCONFIRMED_WRITE_REQUEST=22 INFORMATION_REPORT_REQUEST=24 GLO_INITIATE_REQUEST=33 GLO_READ_REQUEST=37 GLO_WRITE_REQUEST=38
GLO_INITIATE_RESPONSE=40 GLO_READ_RESPONSE=44 GLO_WRITE_RESPONSE=45 GLO_CONFIRMED_SERVICE_ERROR=46 GLO_UNCONFIRMED_WRITE_REQUEST=54
GLO_INFORMATION_REPORT_REQUEST=56 DED_INITIATE_REQUEST=65 DED_READ_REQUEST=69 DED_WRITE_REQUEST=70 DED_INITIATE_RESPONSE=72 DED_READ_RESPONSE=76
DED_WRITE_RESPONSE=77 DED_CONFIRMED_SERVICE_ERROR=78 DED_UNCONFIRMED_WRITE_REQUEST=86 DED_INFORMATION_REPORT_REQUEST=88 GET_REQUEST=192
SET_REQUEST=193 EVENT_NOTIFICATION_REQUEST=194 ACTION_REQUEST=195 GET_RESPONSE=196 SET_RESPONSE=197 ACTION_RESPONSE=199 GLO_GET_REQUEST=200
GLO_SET_REQUEST=201 GLO_EVENT_NOTIFICATION_REQUEST=202 GLO_ACTION_REQUEST=203 GLO_GET_RESPONSE=204 GLO_SET_RESPONSE=205 GLO_ACTION_RESPONSE=207
DED_GET_REQUEST=208 DED_SET_REQUEST=209 DED_EVENT_NOTIFICATION_REQUEST=210 DED_ACTION_REQUEST=211 DED_GET_RESPONSE=212 DED_SET_RESPONSE=213
DED_ACTION_RESPONSE=215 EXCEPTION_RESPONSE=216 ACCESS_REQUEST=217 ACCESS_RESPONSE=218 GENERAL_GLO_CIPHERING=219 GENERAL_DED_CIPHERING=220
GENERAL_CIPHERING=221 GENERAL_SIGNING=223 GENERAL_BLOCK_TRANSFER=224 GATEWAY_REQUEST=230 GATEWAY_RESPONSE=231
""",
    "enums.Conformance": """
NONE=0 RESERVED_ZERO=1 GENERAL_PROTECTION=2 GENERAL_BLOCK_TRANSFER=4 READ=8 WRITE=16 UN_CONFIRMED_WRITE=32 RESERVED_SIX=64 RESERVED_SEVEN=128
ATTRIBUTE_0_SUPPORTED_WITH_SET=256 PRIORITY_MGMT_SUPPORTED=512 ATTRIBUTE_0_SUPPORTED_WITH_GET=1024 BLOCK_TRANSFER_WITH_GET_OR_READ=2048
BLOCK_TRANSFER_WITH_SET_OR_WRITE=4096 BLOCK_TRANSFER_WITH_ACTION=8192 MULTIPLE_REFERENCES=16384 INFORMATION_REPORT=32768 DATA_NOTIFICATION=65536
ACCESS=131072 PARAMETERIZED_ACCESS=262144 GET=524288 SET=1048576 SELECTIVE_ACCESS=2097152 EVENT_NOTIFICATION=4194304 ACTION=8388608
""",
    "enums.ActionRequest": """
NORMAL=1 NEXT_PBLOCK=2 WITH_LIST=3 WITH_FIRST_PBLOCK=4 WITH_LIST_AND_FIRST_PBLOCK=5 WITH_PBLOCK=6
""",
    "enums.ReadResponse": """
DATA=0 DATA_ACCESS_ERROR=1 DATA_BLOCK_RESULT=2 BLOCK_NUMBER=3
""",
    "enums.ServiceError": """
APPLICATION_REFERENCE=0 HARDWARE_RESOURCE=1 VDE_STATE_ERROR=2 SERVICE=3 DEFINITION=4 ACCESS=5 INITIATE=6 LOAD_DATA_SET=7 CHANGE_SCOPE=8 TASK=9
OTHER=10
""",
    "enums.ConfirmedServiceError": """
INITIATE_ERROR=1 GET_STATUS=2 GET_NAME_LIST=3 GET_VARIABLE_ATTRIBUTE=4 READ=5 WRITE=6 GET_DATA_SET_ATTRIBUTE=7 GET_TI_ATTRIBUTE=8 CHANGE_SCOPE=9
START=10 STOP=11 RESUME=12 MAKE_USABLE=13 INITIATE_LOAD=14 LOAD_SEGMENT=15 TERMINATE_LOAD=16 INITIATE_UP_LOAD=17 UP_LOAD_SEGMENT=18
TERMINATE_UP_LOAD=19
""",
    "enums.AARQapdu": """
PROTOCOL_VERSION=0 APPLICATION_CONTEXT_NAME=1 CALLED_AP_TITLE=2 CALLED_AE_QUALIFIER=3 CALLED_AP_INVOCATION_ID=4 CALLED_AE_INVOCATION_ID=5
CALLING_AP_TITLE=6 CALLING_AE_QUALIFIER=7 CALLING_AP_INVOCATION_ID=8 CALLING_AE_INVOCATION_ID=9 SENDER_ACSE_REQUIREMENTS=10 MECHANISM_NAME=11
CALLING_AUTHENTICATION_VALUE=12 IMPLEMENTATION_INFORMATION=29 USER_INFORMATION=30
""",
    "enums.SetRequest": """
SET_REQUEST_NORMAL=1 SET_REQUEST_FIRST_DATABLOCK=2 SET_REQUEST_WITH_DATABLOCK=3 SET_REQUEST_WITH_LIST=4
SET_REQUEST_WITH_LIST_AND_WITH_FIRST_DATABLOCK=5
""",
    "enums.AssociationResult": """
ACCEPTED=0 REJECTED_PERMANENT=1 REJECTED_TRANSIENT=2
""",
    "enums.AcseServiceUser": """
NULL=0 NO_REASON_GIVEN=1 APPLICATION_CONTEXT_NAME_NOT_SUPPORTED=2 CALLING_AP_TITLE_NOT_RECOGNIZED=3 CALLING_AP_INVOCATION_IDENTIFIER_NOT_RECOGNIZED=4
CALLING_AE_QUALIFIER_NOT_RECOGNIZED=5 CALLING_AE_INVOCATION_IDENTIFIER_NOT_RECOGNIZED=6 CALLED_AP_TITLE_NOT_RECOGNIZED=7
CALLED_AP_INVOCATION_IDENTIFIER_NOT_RECOGNIZED=8 CALLED_AE_QUALIFIER_NOT_RECOGNIZED=9 CALLED_AE_INVOCATION_IDENTIFIER_NOT_RECOGNIZED=10
AUTHENTICATION_MECHANISM_NAME_NOT_RECOGNISED=11 AUTHENTICATION_MECHANISM_NAME_REQUIRED=12 AUTHENTICATION_FAILURE=13 AUTHENTICATION_REQUIRED=14
""",
    "enums.Unit": """
TIME_YEAR=1 TIME_MONTH=2 TIME_WEEK=3 TIME_DAY=4 TIME_HOUR=5 TIME_MINUTE=6 TIME_SECOND=7 PHASE_ANGLE_DEGREE=8 TEMPERATURE=9 LOCAL_CURRENCY=10
LENGTH_METRE=11 SPEED_METRE_PER_SECOND=12 VOLUME_VALUE_CUBIC_METRE=13 CORRECTED_VOLUME_CUBIC_METRE=14 VOLUME_FLUX_CUBIC_METRE_PER_HOUR=15
CORRECTED_VOLUME_FLUX_CUBIC_METRE_PER_HOUR=16 VOLUME_FLUX_CUBIC_METRE_PER_DAY=17 CORRECTED_VOLUME_FLUX_CUBIC_METRE_PER_DAY=18 VOLUME_LITRE=19
MASS_KILOGRAM=20 FORCE_NEWTON=21 ENERGY_NEWTON_METER=22 PRESSURE_PASCAL=23 PRESSURE_BAR=24 ENERGY_JOULE=25
THERMAL_POWER_RATE_OF_CHANGE_JOULE_PER_HOUR=26 ACTIVE_POWER_WATT=27 APPARENT_POWER_VOLT_AMPERE=28 REACTIVE_POWER_VAR=29
ACTIVE_ENERGY_VALUE_WATT_HOUR=30 APPARENT_ENERGY_VALUE_VOLT_AMPERE_HOUR=31 REACTIVE_ENERGY_VALUE_VAR_HOUR=32 CURRENT_AMPERE=33
ELECTRICAL_CHARGE_COULOMB=34 VOLTAGE_VOLT=35 ELECTRIC_FIELD_STRENGTH_VOLT_PER_METRE=36 CAPACITANCE_FARAD=37 RESISTANCE_OHM=38 RESISTIVITY=39
MAGNETIC_FLUX_WEBER=40 MAGNETIC_FLUX_DENSITY_TESLA=41 MAGNETIC_FIELD_STRENGTH_AMPERE_PER_METRE=42 INDUCTANCE_HENRY=43 FREQUENCY_HERTZ=44
RW_ACTIVE_ENERGY_VALUE=45 RB_REACTIVE_ENERGY_VALUE=46 RS_APPARENT_ENERGY_VALUE=47 VOLT_SQUARED_HOUR_VOLT_SQUARED_HOUR_METER=48 AMPERE_SQUARED_HOUR=49
MASS_FLUX_KILOGRAM_PER_SECOND=50 CONDUCTANCE_SIEMENS=51 TEMPERATURE_KELVIN=52 RU2H_VOLT_SQUARED_HOUR_METER=53 RI2H_AMPERE_SQUARED_HOUR_METER=54
RV_METER=55 PERCENTAGE=56 AMPERE_HOURS=57 ENERGY_PER_VOLUME=60 CALORIFIC_VALUE_WOBBE=61 MOLAR_FRACTION_OF_GAS_COMPOSITION_MOLE_PERCENT=62
MASS_DENSITY_QUANTITY_OF_MATERIAL=63 DYNAMIC_VISCOSITY_PASCAL_SECOND=64 SPECIFIC_ENERGY_JOULE_KILOGRAM=65 PRESSURE_GRAM_PER_SQUARE_CENTIMETER=66
PRESSURE_ATMOSPHERE=67 SIGNAL_STRENGTH_MILLIWATT=70 SIGNAL_STRENGTH_MICROVOLT=71 LOGARITHMIC_UNIT=72 LENGTH_INCH=128 LENGTH_FOOT=129 MASS_POUND=130
TEMPERATURE_FAHRENHEIT=131 TEMPERATURE_RANKINE=132 AREA_SQUARE_INCH=133 AREA_SQUARE_FOOT=134 AREA_ACRE=135 VOLUME_CUBIC_INCH=136 VOLUME_CUBIC_FOOT=137
VOLUME_ACRE_FOOT=138 VOLUME_GALLON_IMPERIAL=139 VOLUME_GALLON_US=140 FORCE_POUND_FORCE=141 PRESSURE_POUND_FORCE_PER_SQUARE_INCH=142
DENSITY_POUND_PER_CUBIC_FOOT=143 DYNAMIC_VISCOSITY=144 KINEMATIC_VISCOSITY_SQUARE_FOOT_PER_SECOND=145 ENERGY_BRITISH_THERMAL_UNIT=146
ENERGY_THERM_EU=147 ENERGY_THERM_US=148 CALORIFIC_VALUE_OF_MASS_LENTHALPY=149 CALORIFIC_VALUE_OF_VOLUME_WOBBE=150 VOLUME_METER_CUBIC_FEET_RV=151
SPEED_FOOT_PER_SECOND=152 VOLUME_FLUX_CUBIC_FOOT_PER_SECOND=153 VOLUME_FLUX_CUBIC_FOOT_PER_MIN=154 VOLUME_FLUX_CUBIC_FOOT_PER_HOUR=155
VOLUME_FLUX_CUBIC_FOOT_PER_DAY=156 VOLUME_FLUX_ACRE_FOOT_PER_SECOND=157 VOLUME_FLUX_ACRE_FOOT_PER_MIN=158 VOLUME_FLUX_ACRE_FOOT_PER_HOUR=159
VOLUME_FLUX_ACRE_FOOT_PER_DAY=160 VOLUME_IMPERIAL_GALLON_METER_RV=161 VOLUME_FLUX_IMPERIAL_GALLON_PER_SECOND=162
VOLUME_FLUX_IMPERIAL_GALLON_PER_MIN=163 VOLUME_FLUX_IMPERIAL_GALLON_PER_HOUR=164 VOLUME_FLUX_IMPERIAL_GALLON_PER_DAY=165 VOLUME_US_GALLON_RV=166
VOLUME_FLUX_US_GALLON_PER_SECOND=167 VOLUME_FLUX_US_GALLON_PER_MIN=168 VOLUME_FLUX_US_GALLON_PER_HOUR=169 VOLUME_FLUX_US_GALLON_PER_DAY=170
ENERGY_FLOW_BRITISH_THERMAL_UNIT_PER_SECOND=171 ENERGY_FLOW_BRITISH_THERMAL_UNIT_PER_MINUTE=172 ENERGY_FLOW_BRITISH_THERMAL_UNIT_PER_HOUR=173
ENERGY_FLOW_BRITISH_THERMAL_UNIT_PER_DAY=174 EXTENDED_TABLE_OF_UNITS=253 OTHER_UNIT=254 NO_UNIT_UNITLESS_COUNT=255
""",
    "pdu_enums.DataAccessResult": """
SUCCESS=0 HARDWARE_FAULT=1 TEMPORARY_FAILURE=2 READ_WRITE_DENIED=3 OBJECT_UNDEFINED=4 OBJECT_CLASS_INCONSISTENT=9 OBJECT_UNAVAILABLE=11
TYPE_UNMATCHED=12 SCOPE_OF_ACCESS_VIOLATED=13 DATA_BLOCK_UNAVAILABLE=14 LONG_GET_ABORTED=15 NO_LONG_GET_IN_PROGRESS=16 LONG_SET_ABORTED=17
NO_LONG_SET_IN_PROGRESS=18 DATA_BLOCK_NUMBER_INVALID=19 OTHER_REASON=250
""",
    "pdu_enums.GetResponse": """
NORMAL=1 WITH_DATABLOCK=2 WITH_LIST=3
""",
    "pdu_enums.SetResponse": """
NORMAL=1 DATABLOCK=2 LAST_DATABLOCK=3 LAST_DATABLOCK_WITH_LIST=4 WITH_LIST=5
""",
    "pdu_enums.ActionResult": """
SUCCESS=0 HARDWARE_FAULT=1 TEMPORARY_FAILURE=2 READ_WRITE_DENIED=3 OBJECT_UNDEFINED=4 OBJECT_CLASS_INCONSISTENT=9 OBJECT_UNAVAILABLE=11
TYPE_UNMATCHED=12 SCOPE_OF_ACCESS_VIOLATED=13 DATA_BLOCK_UNAVAILABLE=14 LONG_ACTION_ABORTED=15 NO_LONG_ACTION_IN_PROGRESS=16 OTHER_REASON=250
""",
    "pdu_enums.ActionResponse": """
NORMAL=1 WITH_PBLOCK=2 WITH_LIST=3 NEXT_PBLOCK=4
""",
    "pdu_enums.AttributeAccess": """
NO_ACCESS=0 READ_ONLY=1 WRITE_ONLY=2 READ_AND_WRITE=3 AUTHENTICATED_READ_ONLY=4 AUTHENTICATED_WRITE_ONLY=5 AUTHENTICATED_READ_AND_WRITE=6
""",
    "pdu_enums.MethodAccess": """
NO_ACCESS=0 ACCESS=1 AUTHENTICATED_ACCESS=2
""",
    "pdu_enums.SecurityPolicyVer0": """
NOTHING=0 AUTHENTICATED=1 ENCRYPTED=2 AUTHENTICATED_AND_ENCRYPTED=3
""",
    "pdu_enums.SecurityPolicyVer1": """
NOTHING=0 UNUSED_0=1 UNUSED_1=2 AUTHENTICATED_REQUEST=4 ENCRYPTED_REQUEST=8 DIGITALLY_SIGNED_REQUEST=16 AUTHENTICATED_RESPONSE=32
ENCRYPTED_RESPONSE=64 DIGITALLY_SIGNED_RESPONSE=128
""",
    "cosem_interface_classes.overview.CountrySpecificIdentifiers": """
FINLAND=0 USA=1 CANADA=2 SERBIA=3 RUSSIA=7 CZECH_REPUBLIC=10 BULGARIA=11 CROATIA=12 IRELAND=13 ISRAEL=14 UKRAINE=15 YUGOSLAVIA=16 EGYPT=20
SOUTH_AFRICA=27 GREECE=30 NETHERLANDS=31 BELGIUM=32 FRANCE=33 SPAIN=34 PORTUGAL=35 HUNGARY=36 LITHUANIA=37 SLOVENIA=38 ITALY=39 ROMANIA=40
SWITZERLAND=41 SLOVAKIA=42 AUSTRIA=43 UNITED_KINGDOM=44 DENMARK=45 SWEDEN=46 NORWAY=47 POLAND=48 GERMANY=49 PERU=51 SOUGH_KOREA=52 CUBA=53
ARGENTINA=54 BRAZIL=55 CHILE=56 COLOMBIA=57 VENEZUELA=58 MALAYSIA=60 AUSTRALIA=61 INDONESIA=62 PHILIPPINES=63 NEW_ZEALAND=64 SINGAPORE=65 THAILAND=66
LATVIA=71 MOLDOVA=73 BELARUS=75 JAPAN=81 MEXICO=82 HONG_KONG=85 CHINA=86 BOSNIA_AND_HERZEGOVINA=87 TURKEY=90 INDIA=91 PAKISTAN=92 SAUDI_ARABIA=96
UNITED_ARAB_EMIRATES=97 IRAN=98
""",
    "types.cosemClassID": """
DATA=1 REGISTER=3 EXT_REGISTER=4 DEMAND_REGISTER=5 REGISTER_ACTIVATION=6 PROFILE_GENERIC=7 CLOCK=8 SCRIPT_TABLE=9 SCHEDULE=10 SPECIAL_DAYS_TABLE=11
ASSOCIATION_SN=12 ASSOCIATION_LN=15 SAP_ASSIGNMENT=17 IMAGE_TRANSFER=18 IEC_LOCAL_PORT_SETUP=19 ACTIVITY_CALENDAR=20 REGISTER_MONITOR=21
SINGLE_ACTION_SCHEDULE=22 IEC_HDLC_SETUP=23 IEC_TWISTED_PAIR_1_SETUP=24 M_BUS_SLAVE_PORT_SETUP=25 UTILITY_TABLES=26 MODEM_CONFIGURATION=27
AUTO_ANSWER=28 AUTO_CONNECT=29 COSEM_DATA_PROTECTION=30 PUSH_SETUP=40 TCP_UDP_SETUP=41 IPV4_SETUP=42 PRIME_NB_OFDM_PLC_MAC_ADDRESS_SETUP=43
PPP_SETUP=44 GPRS_MODEM_SETUP=45 SMTP_SETUP=46 GSM_DIAGNOSTIC=47 IPV6_SETUP=48 S_FSK_PHY_MAC_SET_UP=50 S_FSK_ACTIVE_INITIATOR=51
S_FSK_MAC_SYNCHRONIZATION_TIMEOUTS=52 S_FSK_MAC_COUNTERS=53 IEC_61334_4_32_LLC_SETUP=55 S_FSK_REPORTING_SYSTEM_LIST=56
ISO_IEC_8802_2_LLC_TYPE_1_SETUP=57 ISO_IEC_8802_2_LLC_TYPE_2_SETUP=58 ISO_IEC_8802_2_LLC_TYPE_3_SETUP=59 REGISTER_TABLE=61 COMPACT_DATA=62
STATUS_MAPPING=63 SECURITY_SETUP=64 PARAMETER_MONITOR=65 SENSOR_MANAGER_INTERFACE_CLASS=67 ARBITRATOR=68 DISCONNECT_CONTROL=70 LIMITER=71
M_BUS_CLIENT=72 WIRELESS_MODE_Q_CHANNEL=73 M_BUS_MASTER_PORT_SETUP=74 DLMS_COSEM_SERVER_M_BUS_PORT_SETUP=76 M_BUS_DIAGNOSTIC=77
_61334_4_32_LLC_SSCS_SETUP=80 PRIME_NB_OFDM_PLC_PHYSICAL_LAYER_COUNTERS=81 PRIME_NB_OFDM_PLC_MAC_SETUP=82
PRIME_NB_OFDM_PLC_MAC_FUNCTIONAL_PARAMETERS=83 PRIME_NB_OFDM_PLC_MAC_COUNTERS=84 PRIME_NB_OFDM_PLC_MAC_NETWORK_ADMINISTRATION_DATA=85
PRIME_NB_OFDM_PLC_APPLICATION_IDENTIFICATION=86 G3_PLC_MAC_LAYER_COUNTERS=90 G3_PLC_MAC_SETUP=91 G3_PLC_MAC_6LOWPAN_ADAPTATION_LAYER_SETUP=92
WI_SUN_SETUP=95 WI_SUN_DIAGNOSTIC=96 RPL_DIAGNOSTIC=97 MPL_DIAGNOSTIC=98 NTP_SETUP=100 ZIGBEE_SAS_STARTUP=101 ZIGBEE_SAS_JOIN=102
ZIGBEE_SAS_APS_FRAGMENTATION=103 ZIGBEE_NETWORK_CONTROL=104 ZIGBEE_TUNNEL_SETUP=105 ACCOUNT=111 CREDIT_INTERFACE_CLASS=112 CHARGE=113
TOKEN_GATEWAY=115 FUNCTION_CONTROL=122 ARRAY_MANAGER=123 COMMUNICATION_PORT_PROTECTION=124 SCHC_LPWAN_SETUP=126 SCHC_LPWAN_DIAGNOSTIC=127
LoRaWAN_SETUP=128 LoRaWAN_DIAGNOSTIC=129 ISO_IEC14908_IDENTIFICATION=130 ISO_IEC14908_PROTOCOL_SETUP=131 ISO_IEC14908_PROTOCOL_STATUS=132
ISO_IEC14908_PROTOCOL_DIAGNOSTIC=133 HS_PLC_ISO_IEC_12139_1_MAC_SETUP=140 HS_PLC_ISO_IEC_12139_1_CPAS_SETUP=141
HS_PLC_ISO_IEC_12139_1_IP_SSAS_SETUP=142 HS_PLC_ISO_IEC_12139_1_HDLC_SSAS_SETUP=143 LTE_MONITORING=151
""",
    "cosem_interface_classes.association_ln.mechanism_id": """
NONE=0 LOW=1 HIGH=2 HIGH_MD5=3 HIGH_SHA1=4 HIGH_GMAC=5 HIGH_SHA256=6 HIGH_ECDSA=7
""",
    "cosem_interface_classes.image_transfer.image_transfer_status": """
TRANSFER_NOT_INITIATED=0 TRANSFER_INITIATED=1 VERIFICATION_INITIATED=2 VERIFICATION_SUCCESSFUL=3 VERIFICATION_FAILED=4 ACTIVATION_INITIATED=5
ACTIVATION_SUCCESSFUL=6 ACTIVATION_FAILED=7
""",
    "cosem_interface_classes.overview.Version": "V0=0 V1=1 V2=2 V3=3",
    "cosem_interface_classes.attr_indexes": """
CALENDAR_NAME_ACTIVE=2 SEASON_PROFILE_ACTIVE=3 WEEK_PROFILE_TABLE_ACTIVE=4 DAY_PROFILE_TABLE_ACTIVE=5 CALENDAR_NAME_PASSIVE=6 SEASON_PROFILE_PASSIVE=7
WEEK_PROFILE_TABLE_PASSIVE=8 DAY_PROFILE_TABLE_PASSIVE=9 ACTIVATE_PASSIVE_CALENDAR_TIME=10
""",
    "types.serviceClass": "UNCONFIRMED=0 CONFIRMED=64",
    "types.priority": "NORMAL=0 HIGH=128",
}


def named(text):
    return {k: int(v) for k, v in (w.split("=") for w in text.split())}


R = range
ELEMENTS = {
    "types.choices.IdentifiedKeyInfoOptions": (0, 1),
    "types.choices.KEKId": (0,),
    "types.implementations.enums.CommSpeed": R(10),
    "types.implementations.enums.RestrictionType": (0, 1, 2),
    "types.implementations.enums.KeyInfoType": (0, 1, 2),
    "types.implementations.enums.ProtectionType": (0, 1, 2, 3),
    "types.implementations.enums.ClientSAP": (0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60),
    "types.common_data_types.Unit": R(1, 256),
    "cosem_interface_classes.clock.ClockBase": R(6),
    "cosem_interface_classes.image_transfer.image_transfer_status.ImageTransferStatus": R(8),
    "cosem_interface_classes.association_ln.ver0.AccessMode": R(4),
    "cosem_interface_classes.association_ln.ver0.AssociationStatus": R(3),
    "cosem_interface_classes.association_ln.mechanism_id.MechanismIdElement": R(8),
    "cosem_interface_classes.association_ln.ver1.AccessMode": R(7),
    "cosem_interface_classes.association_ln.ver1.AccessModeMeth": R(3),
    "cosem_interface_classes.ntp_setup.ver0.AuthenticationMethod": R(3),
    "cosem_interface_classes.gsm_diagnostic.ver0.Status": R(6),
    "cosem_interface_classes.gsm_diagnostic.ver0.CSAttachment": R(3),
    "cosem_interface_classes.gsm_diagnostic.ver0.PSStatus": R(5),
    "cosem_interface_classes.gsm_diagnostic.ver1.PSStatus": R(7),
    "cosem_interface_classes.single_action_schedule.TYPE": R(1, 6),
    "cosem_interface_classes.security_setup.ver0.SecurityPolicy": R(16),
    "cosem_interface_classes.security_setup.ver0.SecuritySuite": R(16),
    "cosem_interface_classes.security_setup.ver0.KeyID": R(3),
    "cosem_interface_classes.security_setup.ver1.CertificateEntity": R(4),
    "cosem_interface_classes.security_setup.ver1.CertificateType": R(4),
    "cosem_interface_classes.security_setup.ver1.KeyID": R(4),
    "cosem_interface_classes.security_setup.ver1.KeyPair": R(3),
    "cosem_interface_classes.security_setup.ver1.CertificateIdentificationType": R(2),
    "cosem_interface_classes.profile_generic.ver1.SortMethod": R(1, 7),
    "cosem_interface_classes.disconnect_control.ControlState": R(3),
    "cosem_interface_classes.disconnect_control.ControlMode": (*R(7), *R(129, 135)),
    "cosem_interface_classes.push_setup.ver2.TransportServiceType": (*R(9), *R(200, 256)),
    "cosem_interface_classes.push_setup.ver2.MessageType": (0, 1, *R(128, 256)),
    "cosem_interface_classes.push_setup.ver2.PushOperationMethod": R(3),
    "cosem_interface_classes.script_table.ServiceId": (1, 2),
}
CONFORMANCE = """reserved-zero general-protection general-block-transfer read write unconfirmed-write reserved-six reserved-seven
attribute0-supported-with-set priority-mgmt-supported attribute0-supported-with-get block-transfer-with-get-or-read block-transfer-with-set-or-write
block-transfer-with-action multiple-references information-report data-notification access parameterized-access get set selective-access
event-notification action""".split()
SPEEDS = (300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)
MIRROR = {"ASSOCIATION_SN_CLASS": "ASSOCIATION_SN", "ASSOCIATION_LN_CLASS": "ASSOCIATION_LN", "IEC_TWISTED_PAIR__1__SETUP": "IEC_TWISTED_PAIR_1_SETUP"}

WITNESS = '''
from DLMS_SPODES import enums
from DLMS_SPODES.types.implementations.bitstrings import Conformance
from DLMS_SPODES.types.implementations.enums import CommSpeed


def number(v):
    return int(v)


def inside(cls, octet):
    for v in (cls(octet), cls(cls.TAG + bytes([octet]))):
        same(v.contents, bytes([octet]), "contents")
        same(int(v), octet, "number")


def outside(cls, octet):
    refuse("number %d" % octet, cls, octet)
    refuse("encoded number %d" % octet, cls, cls.TAG + bytes([octet]))


def speed(code, rate):
    same(CommSpeed(code).decode(), rate, "rate of code")
    same(CommSpeed(rate).contents, bytes([code]), "code of rate")


def no_speed(rate):
    refuse("rate %d" % rate, CommSpeed, rate)


def conformance(n):
    name = list(enums.Conformance.__members__)[n]
    flag = enums.Conformance[name]
    bits = Conformance(int(flag)).decode()
    for i in range(24):
        same(int(bits[i]), 1 if i == n - 1 else 0, "bit %d of the conformance block for %s" % (i, name))


def accessors(n):
    c = Conformance(1 << n)
    same(int(c.general_protection), 1 if n == 1 else 0, "general protection")
    same(int(c.general_block_transfer), 1 if n == 2 else 0, "general block transfer")
    same(int(c.selective_access), 1 if n == 21 else 0, "selective access")
'''


TOINT = []


def split(q):
    m, _, c = q.rpartition(".")
    return m, c


def number(I, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Obj):
        st, n = I.attempt(lambda: I.call(TOINT[0], [v], {}))
        if st != "raise" and isinstance(n, int):
            return n
    return None


def namespace(ck, q):
    """the named numbers of a module, class or enumeration"""
    I = ck.I
    try:
        m = I.mod(q)
        ns = dict(m.d)
        return m, ns, False
    except Exception as e:
        if type(e).__name__ != "AnchorMissing":
            raise
    mod, c = split(q)
    cls = ck.anchor(mod, c)
    if cls.members is not None:
        return cls, {k: m.d["_value_"] for k, m in cls.members.items()}, True
    return cls, dict(cls.d), False


def check_C34(ck):
    I = ck.I
    w = ck.witness(WITNESS)
    TOINT[:] = [w.d["number"]]
    for q, text in NAMED.items():
        ref = named(text)
        where, ns, is_enum = namespace(ck, q)
        for k, n in ref.items():
            if k not in ns:
                ck.fact("named-value", "%s.%s" % (q, k), False, "%s is not declared" % k, where)
                continue
            got = number(I, ns[k])
            ck.fact("named-value", "%s.%s" % (q, k), None if got is None else got == n, "%s is %r, the standard says %d" % (k, got, n), where)
        by = {}
        for k, v in ns.items():
            if is_enum or k in ref or (q == "types.cosemClassID" and isinstance(v, Obj)):
                by.setdefault(number(I, v), []).append(k)
        for n, ks in sorted((a for a in by.items() if a[0] is not None)):
            if len(ks) > 1:
                ck.fact("distinct-numbers", "%s %s" % (q, "/".join(sorted(ks))), False, "members %s share the number %d" % (", ".join(ks), n), where)
        ck.fact("distinct-numbers", q, True, "", where)
    for q, ref in ELEMENTS.items():
        ref = set(ref)
        cls = ck.anchor(*split(q))
        ins = [n for n in range(256) if n in ref]
        outs = [n for n in range(256) if n not in ref]
        ck.claim("elements", "%s: every number of the standard is accepted" % q, w, "inside", lambda I, c=cls, s=ins: (c, I.in_choice("octet", s)), where=cls)
        if outs and q not in ("types.implementations.enums.CommSpeed",):
            ck.claim("elements", "%s: every other number is refused" % q, w, "outside", lambda I, c=cls, s=outs: (c, I.in_choice("octet", s)), where=cls)
    sp = ck.anchor("types.implementations.enums", "CommSpeed")
    for c, r in enumerate(SPEEDS):
        ck.claim("comm-speed", "code %d, %d baud" % (c, r), w, "speed", lambda I, c=c, r=r: (c, r), where=sp)
    ck.claim("comm-speed", "numbers that are no rate", w, "no_speed", lambda I: (I.in_choice("rate", (10, 110, 299, 1800, 14400, 56000, 115201)),), where=sp)
    # ---- sibling tables
    cid = named(NAMED["types.cosemClassID"])
    lc = ck.anchor("types.implementations.long_unsigneds", "ClassIDCDT")
    seen = {}
    for k, v in lc.d.items():
        if k.startswith("__") or not isinstance(v, Obj):
            continue
        n = number(I, v)
        want = cid.get(MIRROR.get(k, k))
        ck.fact("sibling", "ClassIDCDT.%s" % k, None if n is None else n == want if want is not None else n not in cid.values(),
                "%s is %r, cosemClassID says %r" % (k, n, want), lc)
        ck.fact("sibling", "ClassIDCDT.%s has its own number" % k, n not in seen, "%s and %s share the number %r" % (k, seen.get(n), n), lc)
        seen.setdefault(n, k)
    cf = ck.anchor("types.implementations.bitstrings", "Conformance")
    texts = {}
    p = os.path.join(I.root, I.PKG, "config.toml")
    if os.path.exists(p):
        with open(p, "rb") as f:
            texts = tomllib.load(f).get("DLMS", {})
    el = I.getattr(cf, "ELEMENTS")
    el = [I.plain(x) for x in el] if isinstance(el, tuple) else None
    base = texts.get("Conformance", {})
    for i, n in enumerate(CONFORMANCE):
        ok = el is not None and i < len(el) and el[i] in (n, base.get(n))
        ck.fact("sibling", "conformance bit %d" % i, ok, "bit %d is named %r, the standard says %s" % (i, el[i] if el and i < len(el) else None, n), cf)
    for n in range(1, 25):
        ck.claim("sibling", "enums.Conformance flag of bit %d in the conformance block" % (n - 1), w, "conformance", lambda I, n=n: (n,), where=cf)
    for n in range(24):
        ck.claim("sibling", "accessors of a conformance block with bit %d" % n, w, "accessors", lambda I, n=n: (n,), where=cf)
    # ---- texts of the shipped configuration are keyed by numbers the enumeration has
    numbers = {}
    for q, ref in ELEMENTS.items():
        numbers.setdefault(split(q)[1], set()).update(ref)
    for name, ref in sorted(numbers.items()):
        if isinstance(texts.get(name), list):
            keys = [e.get("e") for e in texts[name]]
            ck.fact("texts", name, set(keys) <= ref and len(set(keys)) == len(keys), "config.toml has texts of %s for %s, the enumeration has %s" % (
                name, sorted(set(keys) - ref) or "repeated numbers", sorted(ref)[:12]), "config.toml")
