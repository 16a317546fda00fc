# subject of each repair -> properties it concerns
FIXED = {
    'logging mode changes with long parameters wrote behind the end of a buffer': 'P23 P25',
    'logging lines without parameters crashed the proxy': 'P23 P25',
    'the last character of actions without a closing delimiter was not logged': 'P23',
    'the text of messages was not logged when the command was not in upper case': 'P23',
    'the reason of kicks was missing from irssi style logs': 'P23',
    'kicks from several channels were logged once for every pair of them': 'P23',
    'reopening the logs crashed the proxy when one of them could not be opened': 'P23 P25',
    'logging the name of the server crashed the proxy for built-in networks': 'P23 P25',
    'the log file used for a conversation depended on how its name was spelled': 'P23 P21',
    'messages without parameters crashed the proxy when logging': 'P23 P25',
    'the daemon crashed when an instance rejected a password': 'P24 P25',
    'responses of instances without parameters crashed the daemon': 'P24 P25',
    'errors while sending lines crashed the daemon': 'P24 P25',
    'the daemon could not start instances of users without a system account': 'P24',
    'the daemon crashed when an instance exited after its client had gone': 'P24 P25',
    'clients could make the daemon use directories outside of the configuration directory': 'P24',
    'long user names made the daemon connect to another socket': 'P24',
    'the reply of the daemon to SOCKS clients was malformed': 'P24',
    'clients of the daemon that went away before their password was checked crashed it': 'P24 P25',
    'the daemon never closed its connections to instances': 'P24',
    'CONNECT without parameters made the daemon read behind the end of an array': 'P24 P25',
    'lines with nothing but an origin crashed the daemon': 'P24 P25',
    'ECHO repeated only the first word of its text': 'P19',
    "networks could be given names that can't be kept in the configuration": 'P16 P19',
    'the settings of a server used more than once were lost when loading the configuration': 'P16',
    'stored channel keys were lost, and crashed the proxy for networks without a nick': 'P16',
    'channel keys came back after the last of them had been removed': 'P16',
    'saving lost renamed networks and those with their own file when saving elsewhere': 'P16',
    'deleted networks came back when the configuration was loaded again': 'P16',
    'networks connected to again after the last of them had been disconnected': 'P16',
    'settings that had been unset came back when the configuration was loaded again': 'P16',
    'the password of networks was not saved': 'P16',
    'the users allowed to use a listener were lost when saving': 'P16 P01',
    'custom logging was switched off by saving the configuration': 'P16',
    "saving cut off the configuration at the first text that isn't UTF-8": 'P16',
    "the proxy crashed on or forgot texts in its configuration that aren't UTF-8": 'P16',
    'servers to connect to at startup were used twice, lost when saving or preferred to networks': 'P16',
    'commands on the admin socket used an undefined current network': 'P19',
    "SET and ECHO crashed on or printed (null) for settings that aren't set and missing arguments": 'P19',
    'UNSET crashed the proxy for most settings': 'P19',
    'setting admin-user unset it': 'P19',
    'SET used only the first word of a value': 'P19',
    'an old or unset password was still accepted until the configuration was loaded again': 'P19 P01',
    'STOPLISTENER used memory it had freed': 'P19',
    'a network deleted after it had been renamed stayed in the configuration': 'P16 P19',
    'commands without arguments crashed the proxy on the administration network': 'P19',
    'the clients were miscounted when comparing with the limit for auto-away': 'P18',
    'answers the proxy itself gives to CTCP requests ended auto-away': 'P18',
    'every refused connection to a server leaked a file descriptor': 'P09',
    'a refusal during login that did not name the nick was answered with a nick called (null)_': 'P09',
    'probing a silent server could stop, as it was left undefined whether to go on': 'P13',
    'a server that could not be reached at once was tried forever instead of the next one': 'P09',
    'the line after an empty first line of a client was swallowed': 'P12 P01',
    'listeners with a list of users but no password let everybody in': 'P01',
    'SOCKS clients hung when they tried another password right after a wrong one': 'P12 P01',
    'SOCKS replies were written through a misaligned pointer': 'P01',
    'clients could register with an empty nick or one with blanks': 'P02',
    'TOPIC for a channel the user is not on crashed the proxy': 'P05 P25',
    "RPL_NOTOPIC looked up the channel under the user's nick": 'P05',
    'truncated 333, 346, 348 and 367 replies crashed the proxy': 'P25',
    'unsetting a channel key shifted the arguments of the remaining modes': 'P05',
    'a channel MODE without origin aborted the proxy': 'P25',
    'the nick assigned in the welcome message did not reach the own hostmask': 'P20',
    'RPL_UMODEIS cleared the user modes instead of setting them': 'P05',
    'an incomplete hostmask left a nick without a name and crashed the proxy': 'P25',
    'JOIN of others for channels the user is not on, and odd nicks, upset the state': 'P05 P25',
    'USERHOST replies: operator mark, empty entries and trailing blanks': 'P05',
    'the parameters of channel modes were neither kept nor told to clients': 'P05 P11',
    'rewriting truncated lookup replies read beyond their arguments': 'P20 P25',
    "replies redirected to one client showed the server's identity of the user": 'P20',
    'ADMIN, LUSERS and TRACE queries stayed outstanding after their final reply': 'P03',
    'adding the time to a message without text crashed the proxy': 'P25',
    'a message of one word was split in two when the time was added to it': 'P08',
    'empty CTCP requests and CTCP messages without origin crashed the proxy': 'P14',
    'CTCP replies were matched against clients that were already freed': 'P25',
    'CTCP messages sent while there is no server connection crashed the proxy': 'P14',
    'commands sent in one packet with the password were handled without a network': 'P12 P02',
    'the first line of a client was damaged when it arrived in pieces': 'P12 P01',
    'PASS crashed the proxy when the listener has allow rules': 'P01',
    'PASS without a password crashed the proxy': 'P25',
    'SOCKS messages arriving in pieces or with long fields were misread': 'P12 P01',
    'mode changes following one for an unknown nick were ignored': 'P05',
    'a line from the server with just an origin aborted the proxy': 'P25',
    'TOPIC without a channel read beyond the arguments of the line': 'P25',
    'PRIVMSG without a target crashed the proxy when admin-user is set': 'P19',
    'nick changes of the user were shown under the identity the server knows': 'P20',
    'every MOTD reply was treated as another login': 'P10',
    'NickServ password learning crashed on commands lacking arguments': 'P15 P25',
    'the user modes told to clients lacked the nick they apply to': 'P06',
    'NAMES for clients were malformed before the server had sent any': 'P06',
    'the proxy took the features it announced to a client for a single one': 'P06 P22',
    'NAMES lists for clients were misread by the proxy itself, losing their first member': 'P06',
    'announcing a lost connection to clients never ended for nicks that could not be removed': 'P25 P06',
    'a client that could not be written to kept the others from hearing about a lost connection': 'P06 P25',
    'capabilities advertised without their value crashed the proxy': 'P22 P25',
    'ELIST kept searches of earlier advertisements, EXTBAN without types was shown as (null)': 'P22',
    'backlog positions of an earlier connection or before the first line gave clients a wrong state or none': 'P08 P06 P07',
    "states kept with the history lacked the server's capabilities and parts of the channels": 'P07',
    'the state at the start of the history missed what happened during login': 'P07 P06',
    'the proxy used all of the CPU while a peer accepted no data': 'P12 P25',
    'a connection closed while it accepted no data was used after it was freed': 'P12 P25',
    'long lines were cut off when the peer accepted no data': 'P12',
    'lines for a slow peer were lost after one that could not be converted': 'P12',
    'a line in the wrong character set held up those received after it': 'P12',
    'lines with a Unicode paragraph separator were cut in two': 'P12 P25 P07',
    'comparing the first characters of names looked at the one behind them': 'P21 P15',
    'NickServ passwords were kept by nick without regard for the case mapping of the network': 'P15 P21',
    'looking up the history of a channel or nick depended on how it was spelled': 'P07 P21',
    'clients were told only a few of the capabilities of the server, or those of an earlier one': 'P22',
    'the character set of the clients was used for the server': 'P12 P22',
    'SILENCE without a limit kept the limit advertised before': 'P22',
    'remains of earlier contents stayed at the end of the NickServ password file': 'P15',
    'NickServ passwords not in UTF-8 kept those after them from being loaded': 'P15',
    'the NickServ password for all networks was used rather than the one for the network': 'P15',
    'the user was identified when others took a nick, and not when no client was attached': 'P15',
    'messages without text crashed the proxy when looking for those that match': 'P08 P25',
    'the time was missing from the messages that match': 'P08',
    'closing a connection that never became a client counted as the loss of a client': 'P08 P18',
    'messages sent by the proxy itself counted as said by the user for the simple backlog': 'P08',
    'states read back from the history had topics set at the time of reading': 'P07',
    'NAMES, TOPIC and WHO were answered from memory before everything had been received': 'P11',
    'ban lists were answered from memory without being known, or before a query for other lists was forwarded': 'P11',
    'no answer to a query for the modes of a channel without any': 'P11',
    'a topic that had been removed was reported as an empty one': 'P11 P06',
    'WHO was answered from memory with real names and channel modes that had changed since': 'P11',
    'lines in a list of names could be longer than an IRC line may be': 'P11 P06',
    'an empty ban, exception or invitation list left the entries that were known before': 'P05 P11',
    'channel modes were answered from memory without parameters that were not known': 'P11',
    'connecting to a network with an empty nick, user name or full name crashed the proxy': 'P25 P09',
}
# genuine defects recorded rather than repaired
KNOWN = [
    {'id': 'K16-1', 'status': 'known', 'property': 'P16',
     'what': 'two networks kept in the main configuration file that use the same server with different passwords share one of them after saving and loading: the file has one group per server URL, so keeping both needs another file format',
     'exact': True, 'networks': [['neta', 'srva', 'one'], ['netb', 'srva', 'two']], 'ops': [['save'], ['load', '~']]},
]
